"""Driver: loads the repository's modules and a harness module into the
abstract machine and explores every abstract state to a fixpoint."""

import glob
import math
import os
import sys

from sa.report import AnalysisError, REPO
from . import terms
from .terms import T, Infeasible
from .state import Ref, HDict, State, HModule, NeedModulus
from .interp import VM, Unmodelled
from .join import Joiner

sys.setrecursionlimit(20000)


def repo_sources(*dirs):
    out = {}
    for d in dirs:
        for p in sorted(glob.glob(os.path.join(REPO, d, "*.py"))):
            n = os.path.basename(p)[:-3]
            if n.endswith("_test"):
                continue
            with open(p) as f:
                out[n] = ("%s/%s.py" % (d, n), f.read())
    return out


def position(st):
    """where a state at a loop head is in the order of execution"""
    p = [f.ip for f in st.frames]
    f = st.frames[-1]
    p[-1] = f.ci.loop_end.get(f.ip, f.ip)
    return p


class Analysis:
    """imports: module text run first (its result is the fixed background);
    harness: module text explored to a fixpoint."""

    def __init__(self, dirs, imports, stubs=None, budget=30_000_000,
                 script=None):
        """script: module that "import __script__" runs as the main program"""
        src = repo_sources(*dirs)
        if script is not None:
            if script not in src:
                raise AnalysisError("no program %s" % script)
            src["__script__"] = src[script]
        for n, s in (stubs or {}).items():
            src[n] = ("<%s>" % n, s)
        src["__imports__"] = ("<imports>", imports)
        self.vm = VM(src)
        self.budget = budget
        self.failed = {}
        self.obl = {}
        self.stop_early = False     # any failure settles the verdict
        self.done = []
        self.forks = 0
        self.restarts = 0
        self.vm.on_obligation = self.obligation
        self.joiner = None
        self.limit = 3
        self.trace = False
        self.base_state = None
        self.uncaught = "raise"   # what an escaping exception means

    def obligation(self, st, ok, rule, text):
        key = rule if isinstance(rule, str) else repr(rule)
        n, bad = self.obl.get(key, (0, 0))
        self.obl[key] = (n + 1, bad + (not ok))
        if not ok:
            self.failed.setdefault(key, []).append(
                (str(text), [x.where() for x in st.frames[::-1]][:8]))

    def prepare(self):
        vm = self.vm
        st = State(vm.boot.heap)
        st.next = vm.boot.next
        st.roots["modules"] = st.new(HDict())
        from .builtins_ import boot_prelude
        boot_prelude(vm, st)
        vm.load_source(st, "__imports__")
        done = self._run(st, None)
        if len(done) != 1:
            raise AnalysisError("imports branch into %d states" % len(done))
        st = done[0]
        if st.result is not None and st.result[0] == "exc":
            raise AnalysisError("importing the modules fails: %s" %
                                vm.exc_text(st, st.result[1]))
        self.freeze(st)
        self.base_state = st

    def freeze(self, st):
        """make the current heap the immutable background of st"""
        b = dict(st.base)
        b.update(st.heap)
        st.base = b
        st.heap = {}
        syms = set()
        seen = set()
        stack = list(b.values())
        while stack:
            x = stack.pop()
            if isinstance(x, T):
                syms.update(x.syms)
            elif isinstance(x, (str, int, float, bytes, Ref)) or x is None:
                pass
            elif isinstance(x, dict):
                stack.extend(x.values())
            elif isinstance(x, (list, tuple)):
                stack.extend(x)
            elif id(x) not in seen:
                seen.add(id(x))
                for k in type(x).__mro__:
                    for n in getattr(k, "__slots__", ()):
                        if n[0] != "_" and hasattr(x, n):
                            stack.append(getattr(x, n))
        self.vm.base_syms = syms
        st.result = None

    def explore(self, harness, join=True):
        """returns final states"""
        vm = self.vm
        if self.base_state is None:
            self.prepare()
        self.failed, self.obl = {}, {}
        vm.moduli = {}
        vm.sources["__harness__"] = ("<harness>", harness)
        obl0 = None
        while True:
            st = self.base_state.copy()
            st.next = [self.base_state.next[0]]
            vm.tags = {}
            self.failed, self.obl = {}, {}
            self.joiner = Joiner(vm, self.limit)
            self.joiner.trace = self.trace
            vm.load_source(st, "__harness__")
            try:
                self.done = self._run(st, self.joiner if join else None)
                return self.done
            except NeedModulus as e:
                old = vm.moduli.get(e.key, 1)
                vm.moduli[e.key] = old * e.m // math.gcd(old, e.m)
                self.restarts += 1
                if self.restarts > 20 or vm.moduli[e.key] > 8192:
                    raise AnalysisError("residues of %s do not settle" %
                                        (e.key,))

    def _run(self, st, joiner):
        vm = self.vm
        work = [st]
        waiting = []    # states at loop heads
        done = []
        late = None
        while work or waiting:
            if work:
                st = work.pop()
            else:
                # inner and earlier loops settle first
                waiting = [w for w in waiting if not w[1].origin.dead]
                if not waiting:
                    break
                i = min(range(len(waiting)), key=lambda k: waiting[k][0])
                st = waiting.pop(i)[1]
            if st.origin is not None and st.origin.dead:
                continue
            if self.stop_early and late is None and any(
                    self.failed.values()):
                late = vm.insn_count + 3_000_000
            if late is not None and vm.insn_count > late:
                break       # the verdict is clear
            if vm.insn_count > self.budget:
                raise AnalysisError("instruction budget exhausted at %s" % (
                    [x.where() for x in st.frames[::-1]][:6],))
            try:
                k, r = vm.run(st)
            except (NeedModulus, RecursionError):
                raise
            except Exception as e:
                at = [x.where() for x in st.frames[::-1]][:6]
                if isinstance(e, AnalysisError):
                    if "[at " in str(e):
                        raise
                    raise AnalysisError("%s [at %s]" % (e, at)) from e
                e.add_note("in the analysed program at %s" % (at,))
                raise
            if k == "done":
                done.append(r)
                if self.stop_early and late is None and \
                        r.result is not None and \
                        r.result[0] == "exc":
                    late = vm.insn_count + 3_000_000
            elif k == "fork":
                self.forks += 1
                work.extend(reversed(r))
            elif joiner is None:
                work.append(r)
            else:
                waiting += [(position(s), s) for s in joiner.arrive(r)]
        return done

    def escaped(self, done=None):
        """texts of exceptions that escaped the harness"""
        return [self.vm.exc_text(s, s.result[1]) for s in done or self.done
                if s.result is not None and s.result[0] == "exc"]
