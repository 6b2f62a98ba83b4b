"""P07-P09, X02 (player half): startup, exit and pause."""

import os

from sa.report import AnalysisError, REPO
from sa.player import build
from sa.player.m6502 import Machine, show

S0CR, S0SR, RSR = 0x0401, 0x0403, 0x0426
_cache = {}


def startup(p):
    if "m" in _cache:
        return _cache["m"]
    m = Machine(p)
    m.snaps = []

    def hook(s, e):
        if e[0] in ('wwrite', 'sread'):
            m.snaps.append((e, s.copy()))
    m.hook = hook
    s = m.entry(0x800, X=('a', 'X0'), ptr=('reg', ('a', 'p0'), ('a', 'p1')),
                mode=('a', 'mode0'))
    m.run(s)
    _cache["m"] = m
    return m


def on_path_after(s, kind_pred, after_pred):
    """True if some event satisfying kind_pred occurs after the last one
    satisfying after_pred"""
    ok = False
    for e in s.events:
        if after_pred(e):
            ok = False
        elif kind_pred(e):
            ok = True
    return ok


def P07(rep, tier):
    rep.explanation = (
        "Dataflow with constant propagation from the binary's entry point "
        "($0800) through W5100 reset, socket setup, connection wait and "
        "header read to the first opcode dispatch, on every path; the W5100 "
        "register file is an abstract map written through the indirect "
        "pointer.")
    p = build.load()
    m = startup(p)
    rep.count("abstract states", m.nstates)
    rep.count("instructions", m.instr)
    rep.need("abstract states", 100)

    from sa.checks.server import default_port
    port = default_port()

    connects = [(e, s) for e, s in m.snaps if e[0] == 'wwrite' and
                e[1] == S0CR and e[2] == 4]
    opens = [(e, s) for e, s in m.snaps if e[0] == 'wwrite' and
             e[1] == S0CR and e[2] == 1]
    if not connects or not opens:
        rep.fail("connects", "startup", "no path opens and connects a socket")
    for what, lst in (("OPEN", opens), ("CONNECT", connects)):
        for e, s in lst:
            rep.count("socket commands")
            w = s.wreg
            c = "%s at %s" % (what, p.where(e[3]))

            def have(a, n):
                return [w.get(a + i) for i in range(n)]

            def const(a, n):
                return all(isinstance(x, int) for x in have(a, n))
            rep.check(s.mode == 3, "mode", what,
                      "%s with W5100 mode %s; auto-increment indirect mode "
                      "(3) is relied on" % (c, show(s.mode)))
            rep.check(const(0x0009, 6), "mac", what,
                      "%s: MAC address registers hold %s" % (
                          c, have(0x0009, 6)))
            rep.check(const(0x000F, 4), "source-ip", what,
                      "%s: source IP registers hold %s" % (
                          c, have(0x000F, 4)))
            rep.check(w.get(0x001A) == 3, "rx-buffer", what,
                      "%s: receive memory size is %s; the player's address "
                      "arithmetic needs 8K for socket 0 (3)" % (
                          c, w.get(0x001A)))
            mr = w.get(0x0400)
            rep.check(isinstance(mr, int) and mr & 15 == 1, "tcp", what,
                      "%s: socket mode is %s, not TCP" % (c, mr))
            rep.check(const(0x0404, 2), "local-port", what,
                      "%s: local port registers hold %s" % (
                          c, have(0x0404, 2)))
            rep.check(const(0x040C, 4), "peer-ip", what,
                      "%s: destination IP registers hold %s" % (
                          c, have(0x040C, 4)))
            hp = have(0x0410, 2)
            rep.check(hp == [port >> 8, port & 255], "peer-port", what,
                      "%s: destination port registers hold %s, the server "
                      "listens on %d" % (c, hp, port))
    for e, s in connects:
        def is_cmd(x):
            return x[0] == 'wwrite' and x[1] == S0CR
        rep.check(any(x[0] == 'is' and x[1] == ('a', 'w0403') and
                      x[2] == 0x13 for x in s.events), "init-before-connect",
                  "CONNECT", "CONNECT at %s on a path that has not seen "
                  "SOCK_INIT" % p.where(e[3]))
    reads = [(e, s) for e, s in m.snaps if e[0] == 'sread']
    if not reads:
        rep.fail("header-read", "startup", "no path reads the stream header")
    for e, s in reads:
        rep.check(any(x[0] == 'is' and x[1] == ('a', 'w0403') and
                      x[2] == 0x17 for x in s.events) and
                  any(x[0] == 'wwrite' and x[1] == S0CR and x[2] == 4
                      for x in s.events),
                  "established-before-read", "stream[%d]" % e[1],
                  "stream byte %d read at %s on a path that has not seen "
                  "SOCK_ESTABLISHED after CONNECT" % (e[1], p.where(e[2])))
        lo = s.ranges.get(('a', 'w0426'), (0, 255))[0]
        rep.check(lo >= 1, "data-before-read", "stream[%d]" % e[1],
                  "stream byte %d read at %s while the received size may be "
                  "0" % (e[1], p.where(e[2])))
    # retries are bounded: no cycle of the state graph issues a command
    cyc = cyclic_states(m)
    bad = [m.keyinfo[k] for k in cyc if issues_command(m, k)]
    rep.check(not bad, "bounded-retries", "startup",
              "the retry loop through %s never gives up" % (
                  p.where(bad[0].pc) if bad else ""))
    rep.count("states on cycles", len(cyc))
    kinds = {}
    for t in m.terminals:
        kinds[t.kind] = kinds.get(t.kind, 0) + 1
        s = t.state
        if t.kind == "halt":
            n = len({x[2:] for x in s.events if x[0] == 'rom' and
                     x[1] == 'COUT'})
            rep.check(n > 0, "failure-message", "halt",
                      "startup stops at %s without printing anything" %
                      p.where(s.pc))
        elif t.kind != "dispatch":
            rep.fail("startup-ends", t.kind, "startup ends with %s: %s at %s"
                     % (t.kind, t.detail, p.where(s.pc)))
    rep.check(kinds.get("dispatch", 0) > 0, "reaches-playback", "startup",
              "no path reaches the first opcode")


def issues_command(m, k):
    s = m.keyinfo[k]
    for k2 in m.graph.get(k, ()):
        s2 = m.keyinfo.get(k2)
        if s2 is None:
            continue
        # a store to WDATA while the pointer is at the command register
        if s.ptr == ('reg', S0CR >> 8, S0CR & 255) and s2.ptr != s.ptr and \
                m.p.mem[s.pc] in (0x8D, 0x8E, 0x8C) and \
                m.p.mem[s.pc + 1] == 0x97:
            return True
    return False


def cyclic_states(m):
    """states in non-trivial SCCs (iterative Tarjan)"""
    index, low, on, stack, out = {}, {}, set(), [], []
    cnt = [0]
    for root in list(m.graph):
        if root in index:
            continue
        work = [(root, iter(m.graph.get(root, ())))]
        index[root] = low[root] = cnt[0]
        cnt[0] += 1
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(m.graph.get(w, ()))))
                    break
                elif w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in m.graph.get(v, ()):
                        out.extend(comp)
    return out


def quits(rep, p, m, what):
    qs = [t for t in m.terminals if t.kind == "quit"]
    rep.check(bool(qs), "quits", what, "%s never calls the ProDOS MLI" % what)
    for t in m.terminals:
        if t.kind != "quit":
            rep.fail("only-quits", what, "%s: a path ends with %s %s at %s" % (
                what, t.kind, t.detail, p.where(t.state.pc)))
    for t in qs:
        a = t.detail
        rd = lambda x: t.state.mem.get(x, p.mem[x] if p.loaded[x] else None)
        rep.check(rd(a) == 0x65, "quit-call", what, "%s: MLI call $%s, QUIT is"
                  " $65" % (what, rd(a)))
        tab = (rd(a + 1) or 0) | (rd(a + 2) or 0) << 8
        got = [rd(tab + i) for i in range(7)]
        rep.check(got == [4, 0, 0, 0, 0, 0, 0], "quit-parameters", what,
                  "%s: QUIT parameter table at $%04X is %s" % (what, tab, got))
    return qs


def P08(rep, tier):
    rep.explanation = (
        "Dataflow from op_terminate to the ProDOS QUIT call on every path, "
        "and of the reset handler installed by startup (vector and power-up "
        "checksum as left in memory at every socket command and at the first "
        "dispatch).")
    p = build.load()
    if "op_terminate" not in p.syms:
        raise AnalysisError("label op_terminate has vanished")
    m = Machine(p)
    m.run(m.entry(p.syms["op_terminate"], X=0))
    rep.count("abstract states", m.nstates)
    for t in quits(rep, p, m, "op_terminate"):
        seq = [(e[0], e[1]) if e[0] == 'key' else (e[0],)
               for e in t.state.events if e[0] in ('strobe', 'key')]
        keys = [i for i, e in enumerate(seq) if e == ('key', 1)]
        strobes = [i for i, e in enumerate(seq) if e[0] == 'strobe']
        rep.check(bool(keys) and bool(strobes) and
                  strobes[0] < keys[0], "waits-for-new-key", "op_terminate",
                  "op_terminate quits after %s; expected: clear the strobe, "
                  "then wait for a key" % (seq,))
        rep.check(bool(keys) and bool(strobes) and strobes[-1] > keys[-1],
                  "consumes-key", "op_terminate",
                  "the key that ends the program is left pending: %s" % (seq,))
    ms = startup(p)
    vecs = set()
    for e, s in ms.snaps:
        if e[0] == 'wwrite' or e[0] == 'sread':
            vecs.add((s.mem.get(0x3F2), s.mem.get(0x3F3), s.mem.get(0x3F4)))
    for t in ms.terminals:
        if t.kind == "dispatch":
            s = t.state
            vecs.add((s.mem.get(0x3F2), s.mem.get(0x3F3), s.mem.get(0x3F4)))
    rep.count("vector states", len(vecs))
    rep.need("vector states", 1)
    for lo, hi, ck in vecs:
        if not rep.check(isinstance(lo, int) and isinstance(hi, int) and
                         isinstance(ck, int), "vector-installed", "reset",
                         "the reset vector is (lo=%s hi=%s check=%s) when "
                         "networking starts" % (lo, hi, ck)):
            continue
        rep.check(ck == hi ^ 0xA5, "vector-checksum", "reset",
                  "power-up byte $%02X does not match $%02X eor $A5: a reset "
                  "would cold start" % (ck, hi))
        mr = Machine(p)
        mr.run(mr.entry(hi << 8 | lo))
        qs = quits(rep, p, mr, "reset handler")
        for t in qs:
            v = t.state.mem.get(0x3F4)
            ok = (isinstance(v, tuple) and v[0] == '+' and
                  v[1] == ('a', 'm03F4')) or (isinstance(v, int) and v != ck)
            rep.check(ok, "vector-invalidated", "reset handler",
                      "QUIT is called with the power-up byte still valid")
        for t in m.terminals:
            if t.kind == "quit":
                v = t.state.mem.get(0x3F4)
                ok = (isinstance(v, tuple) and v[0] == '+' and
                      v[1] == ('a', 'm03F4')) or (isinstance(v, int) and
                                                  v != ck)
                rep.check(ok, "vector-invalidated", "op_terminate",
                          "QUIT is called with the power-up byte still valid")


def P09(rep, tier):
    rep.explanation = (
        "Keyboard protocol of the acknowledgement slow path (op_ack to the "
        "next dispatch), on every path: sequence of keyboard tests and strobe"
        " accesses, and the stream position afterwards.")
    from sa.checks.player_ops import analyse_all
    p, ops = analyse_all()
    m = ops["op_ack"].m
    n1 = n0 = 0
    for t in m.terminals:
        if t.kind != "dispatch":
            rep.fail("resumes", "op_ack", "a path ends with %s" % t.kind)
            continue
        seq = [(e[0], e[1]) if e[0] == 'key' else (e[0],)
               for e in t.state.events if e[0] in ('strobe', 'key')]
        first = [e for e in seq if e[0] == 'key'][:1]
        if not first:
            rep.fail("polls-keyboard", "op_ack", "a path from op_ack to the "
                     "next frame does not test the keyboard")
            continue
        if first[0] == ('key', 0):
            n0 += 1
            rep.check(seq == [('key', 0)], "no-key-no-pause", "op_ack",
                      "without a keypress the path does %s" % (seq,))
        else:
            n1 += 1
            ok = seq == [('key', 1), ('strobe',), ('key', 1), ('strobe',)]
            rep.check(ok, "pause-until-second-key", "op_ack",
                      "after a keypress the path does %s; expected clear the "
                      "strobe, wait for a second key, clear it" % (seq,))
        rep.check(t.state.ptr == ('stream', 4) and t.detail ==
                  (('s', 2), ('s', 3)) and t.state.X == 0,
                  "position-kept", "op_ack",
                  "stream position or X lost across the pause")
    rep.count("paths without key", n0)
    rep.count("paths with key", n1)
    rep.check(n0 > 0 and n1 > 0, "both-paths", "op_ack",
              "pause (%d) and no-pause (%d) paths must both exist" % (n1, n0))


def setup_runs(p):
    """(mode range, ordered effects) for every path from entry to dispatch"""
    m = startup(p)
    out = []
    for t in m.terminals:
        if t.kind != "dispatch":
            continue
        out.append((t, t.state.ranges.get(('s', 6), (0, 255))))
    return m, out


HEADER_LEN = 7


def P10(rep, tier):
    rep.explanation = (
        "Dataflow from the binary's entry point to the first opcode dispatch:"
        " which stream bytes the header consumes, how the mode byte steers "
        "the display soft switches, what is cleared while it is selected, and"
        " the register/pointer state the first opcode starts from.")
    p = build.load()
    m, runs = setup_runs(p)
    rep.count("abstract states", m.nstates)
    rep.count("paths to playback", len(runs))
    rep.need("paths to playback", 2)
    seen = set()
    for t, (lo, hi) in runs:
        s = t.state
        reads = [e[1] for e in s.events if e[0] == 'sread']
        rep.check(sorted(reads) == list(range(HEADER_LEN + 2)),
                  "header-bytes", "header",
                  "startup consumes stream bytes %s before the first opcode; "
                  "expected a %d-byte header and a 2-byte address" % (
                      sorted(reads), HEADER_LEN))
        rep.check(t.detail == (('s', HEADER_LEN), ('s', HEADER_LEN + 1)),
                  "first-dispatch", "header",
                  "the first opcode address is (hi=%s, lo=%s)" % (
                      show(t.detail[0]), show(t.detail[1])))
        rep.check(s.ptr == ('reg', 0x60, HEADER_LEN + 2) and s.X == 0 and
                  s.D == 0 and s.mode == 3 and s.stack == (), "invariants",
                  "header", "playback starts with W5100 pointer %s, X=%s, "
                  "D=%s, mode %s, stack %s" % (
                      s.ptr, show(s.X), s.D, s.mode, s.stack))
        lo1 = s.ranges.get(('a', 'w0426'), (0, 255))[0]
        rep.check(lo1 >= 8, "first-frame-complete", "header",
                  "playback starts with only %d*256 bytes pending; the first "
                  "acknowledgement consumes 2048" % lo1)
        sw = {"store80": 0, "page2": 0, "text": None, "mixed": None,
              "hires": None, "col80": 0, "dhires": 0}
        cleared = set()
        shown_early = None
        for e in s.events:
            a = None
            if e[0] == 'switch':
                a = e[1]
            elif e[0] == 'ioread' and 0xC050 <= e[1] <= 0xC05F:
                a = e[1]
            if a is not None:
                for name, off, on in (("store80", 0xC000, 0xC001),
                                      ("col80", 0xC00C, 0xC00D),
                                      ("text", 0xC050, 0xC051),
                                      ("mixed", 0xC052, 0xC053),
                                      ("page2", 0xC054, 0xC055),
                                      ("hires", 0xC056, 0xC057),
                                      ("dhires", 0xC05F, 0xC05E)):
                    if a in (off, on):
                        sw[name] = int(a == on)
            if e[0] == 'rom' and e[1] in ('HGR0', 'HGR'):
                bank = 'aux' if sw["store80"] and sw["page2"] and \
                    sw["hires"] else 'main'
                cleared.add(bank)
                if sw["text"] == 0 and shown_early is None:
                    shown_early = p.where(e[3])
            if e[0] == 'clearpage':
                rep.fail("clear-page", "header", "the clear at %s runs with "
                         "$E6=%s, not page $20" % (p.where(e[2]),
                                                   show(e[1])))
        dhgr = lo >= 1
        if (lo, hi) not in ((0, 0), (1, 255)):
            rep.fail("mode-byte", "header", "a path plays without having "
                     "tested the mode byte (range %d..%d)" % (lo, hi))
            continue
        seen.add(dhgr)
        name = "DHGR" if dhgr else "HGR"
        want = {"text": 0, "mixed": 0, "hires": 1, "page2": 0,
                "store80": int(dhgr), "col80": int(dhgr),
                "dhires": int(dhgr)}
        bad = {k: sw[k] for k in want if sw[k] != want[k]}
        rep.check(not bad, "switches", name, "%s playback starts with soft "
                  "switches %s, expected %s" % (
                      name, bad, {k: want[k] for k in bad}))
        rep.check(cleared == ({'main', 'aux'} if dhgr else {'main'}),
                  "cleared", name, "%s: screen banks cleared: %s" % (
                      name, sorted(cleared)))
        rep.check(shown_early is None, "cleared-before-shown", name,
                  "%s: the screen is displayed before the clear at %s" % (
                      name, shown_early))
    rep.check(seen == {True, False}, "both-modes", "header",
              "modes reached: %s" % sorted(seen))
