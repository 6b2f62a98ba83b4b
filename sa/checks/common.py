"""Turning an exploration of the abstract machine into obligations."""

import multiprocessing
import os
import re

from sa.report import AnalysisError

DEBUG = os.environ.get("SA_DEBUG")


def results(a, harness, join):
    a.stop_early = True
    a.explore(harness, join)
    return (sorted(set(re.sub(r"#[0-9]+", "", t) for t in a.escaped())),
            dict(a.obl), {k: v[0] for k, v in a.failed.items() if v},
            (a.vm.insn_count, len(a.done),
             a.joiner.arrivals if a.joiner else 0))


def finish(rep, a, harness, need, what="obligations", join=True):
    record(rep, results(a, harness, join), need, what)


def record(rep, res, need, what):
    escaped, obl, failed, counts = res
    for t in escaped:
        rep.fail("no-exception", t.split(":")[0], "the harness ends in an "
                 "exception: %s" % t)
    for rule, (n, bad) in sorted(obl.items()):
        if bad:
            text, where = failed[rule]
            w = [x for x in where if not x.startswith("<")]
            rep.fail(rule.split(" ")[0], rule, "%s%s" % (
                text, (" [at %s]" % w[0]) if w else ""))
        else:
            rep.ok(rule.split(" ")[0], rule, "%d abstract paths" % n)
    rep.count("abstract instructions", counts[0])
    rep.count("final states", counts[1])
    rep.count("joined states", counts[2])
    rep.analysed[what] = rep.analysed.get(what, 0) + len(obl)
    if not rep.violations:
        rep.need(what, need)


_TASK = None


def _child(i):
    a, harnesses, join = _TASK
    try:
        a.vm.insn_count = 0
        return results(a, harnesses[i], join), None
    except AnalysisError as e:
        return None, str(e)


def finish_all(rep, a, harnesses, need, what="obligations", join=True):
    """several harnesses on the same imports, explored in parallel; need:
    minimal number of rules of each"""
    global _TASK
    a.prepare()
    _TASK = a, harnesses, join
    out = []
    with multiprocessing.get_context("fork").Pool(
            min(len(harnesses), os.cpu_count() or 1), maxtasksperchild=1) as p:
        for res, err in p.imap(_child, range(len(harnesses)), 1):
            if err is not None:
                raise AnalysisError(err)
            out.append(res)
    n = rep.analysed.get(what, 0)
    for res in out:
        n += need
        record(rep, res, n, what)
