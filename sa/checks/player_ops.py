"""P01-P06: dataflow over the assembled opcodes of the playback loop."""

import re
from sa.report import AnalysisError
from sa.player import build
from sa.player.m6502 import (Machine, TOP, show, TICK, WDATA, VOLATILE)

OPRE = re.compile(r"op_tick_(\d+)_page_(\d+)$")
TICKS = range(4, 67, 2)
PAGES = range(32, 64)
# op_tick_22 and op_tick_40 are a cycle short: documented in their comments as
INTERVALS = {22: {21, 22}, 40: {39, 40}}


def opcode_labels(p):
    out = {}
    for name, addr in p.syms.items():
        m = OPRE.match(name)
        if m:
            out[(int(m.group(1)), int(m.group(2)))] = (name, addr)
    return out


_cache = {}


class Op:
    pass


def analyse_all():
    """One dataflow run per opcode entry; shared by the P-series."""
    if "r" in _cache:
        return _cache["r"]
    p = build.load()
    ops = {}
    labels = opcode_labels(p)
    for (n, page), (name, addr) in sorted(labels.items()):
        m = Machine(p)
        s = m.entry(addr, X=0)
        m.run(s)
        o = Op()
        o.name, o.addr, o.n, o.page, o.m = name, addr, n, page, m
        ops[name] = o
    for name, lo in (("op_nop", None), ("op_ack", 0xFE)):
        if name not in p.syms:
            raise AnalysisError("label %s has vanished" % name)
        m = Machine(p, frame_lo=lo)
        m.run(m.entry(p.syms[name], X=0))
        o = Op()
        o.name, o.addr, o.n, o.page, o.m = name, p.syms[name], None, None, m
        ops[name] = o
    _cache["r"] = (p, ops)
    return p, ops


def ticks_of(rep, p, ops, labels_needed=True):
    found = {(o.n, o.page) for o in ops.values() if o.n is not None}
    for n in TICKS:
        for page in PAGES:
            if (n, page) not in found:
                rep.fail("opcode-exists", "op_tick_%d_page_%d" % (n, page),
                         "the player has no such opcode")
    out = [o for o in ops.values() if o.n is not None]
    rep.count("tick opcodes", len(out))
    rep.count("instructions", sum(o.m.instr for o in out))
    rep.need("tick opcodes", 1000)
    return out


def ends(rep, p, o, rule):
    """every path must end in a dispatch; returns the dispatch terminals"""
    good = []
    for t in o.m.terminals:
        rep.count("paths")
        if t.kind == "dispatch":
            good.append(t)
        else:
            rep.fail(rule, o.name, "%s: a path ends with %s (%s) at %s instead "
                     "of dispatching the next opcode" % (
                         o.name, t.kind, t.detail, p.where(t.state.pc)))
    if not good:
        rep.fail(rule, o.name, "%s: no path dispatches the next opcode" %
                 o.name)
    return good


def evs(st, kind):
    return [e for e in st.events if e[0] == kind]


def P01(rep, tier):
    rep.explanation = (
        "Dataflow over the decoded machine code of each op_tick_N_page_P in "
        "the player assembled from the working tree: cycle counts per the "
        "6502 instruction timing (taken/page-crossing branches and indexed "
        "accesses included) summed along every path to its computed JMP.")
    p, ops = analyse_all()
    for o in ticks_of(rep, p, ops):
        for t in ends(rep, p, o, "dispatches"):
            s = t.state
            if s.waited:
                rep.fail("cycles", o.name, "%s: a path loops or has a data "
                         "dependent cycle count (ends at %s)" % (
                             o.name, p.where(s.pc)))
                continue
            rep.check(s.cyc == 73, "cycles", o.name,
                      "%s takes %d cycles, not 73, on the path ending at %s" %
                      (o.name, s.cyc, p.where(s.pc)), "73 cycles")


def P02(rep, tier):
    rep.explanation = (
        "For each op_tick_N_page_P, every access to the speaker soft switch "
        "($C030-$C03F; dummy accesses of indexed and read-modify-write "
        "instructions count) on every path, with the cycle it happens in.")
    p, ops = analyse_all()
    first = {}
    for o in ticks_of(rep, p, ops):
        for t in ends(rep, p, o, "dispatches"):
            tk = evs(t.state, 'tick')
            if not rep.check(len(tk) == 2, "two-toggles", o.name,
                             "%s toggles the speaker %d times (at %s)" % (
                                 o.name, len(tk), ", ".join(
                                     p.where(e[2]) for e in tk))):
                continue
            if None in (tk[0][1], tk[1][1]):
                rep.fail("interval", o.name, "%s: toggle time depends on a "
                         "wait" % o.name)
                continue
            d = tk[1][1] - tk[0][1]
            rep.check(d in INTERVALS.get(o.n, {o.n}), "interval", o.name,
                      "%s: toggles are %d cycles apart (second at %s)" % (
                          o.name, d, p.where(tk[1][2])), "%d cycles" % d)
            first.setdefault(tk[0][1], []).append(o)
    if first:
        ref = max(first, key=lambda k: len(first[k]))
        for k, l in first.items():
            for o in l:
                rep.check(k == ref, "first-toggle", o.name,
                          "%s: first toggle at cycle %d, at cycle %d in the "
                          "other opcodes, so speaker periods vary" % (
                              o.name, k, ref), "cycle %d" % k)


def scratch_ok(p, addr, dispatch_cells):
    """constant addresses an opcode may write without side effects"""
    return addr < 0x100 or addr >= 0xD000 or addr in dispatch_cells


def code_cells(p, ops):
    """operand bytes that some opcode writes and some opcode executes patched"""
    cells = set()
    for o in ops.values():
        for a, how in o.m.fetched.items():
            if True in how:
                cells.add(a)
    return cells


def P03(rep, tier):
    rep.explanation = (
        "Memory effects of each op_tick_N_page_P on every path: indexed "
        "stores as (page base, index value, stored value) over the stream "
        "bytes consumed by the opcode; all other writes must be to zero page "
        "scratch, ROM, or the opcode's own dispatch operand.")
    p, ops = analyse_all()
    cells = code_cells(p, ops)
    for o in ticks_of(rep, p, ops):
        for t in ends(rep, p, o, "dispatches"):
            s = t.state
            got = sorted((e[1], show(e[2]), show(e[3]))
                         for e in evs(s, 'istore'))
            want = sorted((o.page << 8, show(('s', j)), show(('s', 0)))
                          for j in (1, 2, 3, 4))
            rep.check(got == want, "four-stores", o.name,
                      "%s: stores (base, offset, value) %s, expected "
                      "stream[0] at $%02X00+stream[1..4]" % (
                          o.name, ["$%04X,%s<-%s" % x for x in got], o.page),
                      "$%02X00+stream[1..4] <- stream[0]" % o.page)
            bad = []
            for e in s.events:
                if e[0] == 'store' and not scratch_ok(p, e[1], cells):
                    bad.append("write to $%04X at %s" % (e[1], p.where(e[3])))
                elif e[0] in ('storevar', 'switchvar', 'iload', 'rxwrite',
                              'wlost', 'wmode'):
                    bad.append("%s at %s" % (e[0], p.where(e[-1] if e[0] not in
                               ('switchvar',) else e[3])))
                elif e[0] == 'switch' or e[0] == 'wwrite':
                    bad.append("%s $%04X at %s" % (e[0], e[1],
                                                   p.where(e[-1])))
                elif e[0] == 'ioread':
                    bad.append("access to $%04X at %s" % (e[1],
                                                          p.where(e[2])))
            rep.check(not bad, "no-other-effect", o.name,
                      "%s: %s" % (o.name, "; ".join(bad)))


def dispatch_ok(rep, p, o, t, hi_j, lo_j):
    s = t.state
    hi, lo = t.detail
    rep.check(hi == ('s', hi_j) and lo == ('s', lo_j), "dispatch-target",
              o.name, "%s: jumps to (hi=%s, lo=%s) at %s, expected "
              "hi=stream[%d] lo=stream[%d]" % (
                  o.name, show(hi), show(lo), p.where(s.pc), hi_j, lo_j))
    reads = [e[1] for e in evs(s, 'sread')]
    rep.check(reads == list(range(lo_j + 1)) and
              s.ptr == ('stream', lo_j + 1), "stream-bytes", o.name,
              "%s: consumes stream bytes %s (pointer then %s), expected "
              "exactly %d" % (o.name, reads, s.ptr, lo_j + 1),
              "%d bytes" % (lo_j + 1))
    rep.check(s.X == 0 and s.D == 0 and s.stack == () and s.mode == 3,
              "invariants", o.name,
              "%s: leaves X=%s D=%s stack depth %d W5100 mode %s (X=0, D=0, "
              "empty stack, mode 3 expected by the next opcode)" % (
                  o.name, show(s.X), s.D, len(s.stack), s.mode))


def P04(rep, tier):
    rep.explanation = (
        "Stream consumption and dispatch of every playback opcode, on every "
        "path: which stream bytes are read, what the self-modified JMP "
        "operand holds, the register invariants at dispatch; and over all "
        "opcodes together, that no byte that any opcode patches is executed "
        "on a path that has not patched it.")
    p, ops = analyse_all()
    for o in ticks_of(rep, p, ops):
        for t in ends(rep, p, o, "dispatches"):
            dispatch_ok(rep, p, o, t, 5, 6)
    for name, n in (("op_nop", 0), ("op_ack", 2)):
        o = ops[name]
        for t in ends(rep, p, o, "dispatches"):
            dispatch_ok(rep, p, o, t, n, n + 1)
    stale_operands(rep, p, ops)


def stale_operands(rep, p, ops):
    written = {}
    for o in ops.values():
        for a, pc in o.m.written.items():
            written.setdefault(a, (o, pc))
    for o in ops.values():
        bad = [a for a, how in o.m.fetched.items()
               if False in how and a in written]
        rep.check(not bad, "no-stale-operand", o.name,
                  "%s: executes %s as left by an earlier opcode (%s patches "
                  "it)" % (o.name, ", ".join(p.where(a) for a in bad[:4]),
                           written[bad[0]][0].name if bad else ""))
        code = {a for oo in ops.values() for a in oo.m.fetched}
        break_cells = [a for a in o.m.written if a not in code]
        rep.check(not break_cells, "patches-code-only", o.name,
                  "%s: writes into the loaded player at %s, which no opcode "
                  "executes" % (o.name, ", ".join(
                      p.where(a) for a in break_cells[:4])))


def P05(rep, tier):
    rep.explanation = (
        "The frame acknowledgement: dataflow from op_ack (its first stream "
        "byte is byte 2044 of a 2048-byte frame, so the W5100 address low "
        "byte is $FE after the ACK opcode's own address bytes) through the "
        "receive-size wait to the next dispatch, on every path, with the "
        "W5100 indirect-mode address pointer modelled.")
    p, ops = analyse_all()
    o = ops["op_ack"]
    m = o.m
    rep.count("instructions", m.instr)
    rep.count("abstract states", m.nstates)
    terms = ends(rep, p, o, "dispatches")
    fast = [t for t in terms if not t.state.waited]
    rep.check(len(fast) >= 1, "fast-path", "op_ack",
              "no path from op_ack reaches the next dispatch without waiting")
    for t in fast:
        s = t.state
        # the two bytes of op_nop's JMP operand are part of the period
        rep.check(s.cyc == 146, "cycles", "op_ack",
                  "the acknowledgement takes %d cycles (2 x 73 expected) on "
                  "the path that need not wait" % s.cyc, "146 cycles")
        tk = [e[1] for e in evs(s, 'tick')]
        rel = [c - tk[0] for c in tk] if tk else []
        rep.check(rel == [0, 34, 73, 107] and tk[0] == 3, "ticks", "op_ack",
                  "speaker toggles at cycles %s of the acknowledgement; "
                  "expected 0, 34, 73, 107 after its first one" % rel,
                  "toggles at %s" % rel)
    for t in terms:
        s = t.state
        reads = [e[1] for e in evs(s, 'sread')]
        rep.check(sorted(reads) == [0, 1, 2, 3] and s.ptr == ('stream', 4) and
                  t.detail == (('s', 2), ('s', 3)), "stream-position",
                  "op_ack", "after the acknowledgement the next opcode address"
                  " is taken from (hi=%s, lo=%s) with pointer %s; expected the"
                  " first two bytes of the next frame" % (
                      show(t.detail[0]), show(t.detail[1]), s.ptr))
        rep.check(s.X == 0 and s.D == 0 and s.stack == () and s.mode == 3,
                  "invariants", "op_ack", "leaves X=%s D=%s" % (
                      show(s.X), s.D))
        sw = evs(s, 'switchvar')
        rep.check(len(sw) == 1 and sw[0][1] == ('s', 0), "soft-switch",
                  "op_ack", "touches soft switches %s; expected exactly one "
                  "access to $C000+stream[0]" % [
                      (show(e[1]), p.where(e[3])) for e in sw])
        others = [e for e in s.events if e[0] in (
            'switch', 'storevar', 'istore', 'rxwrite', 'wlost', 'wmode',
            'clearpage', 'rom')]
        others += [e for e in s.events if e[0] == 'store' and
                   not scratch_ok(p, e[1], code_cells(p, ops))]
        rep.check(not others, "no-other-effect", "op_ack",
                  "unexpected effects %s" % [
                      (e[0], p.where(e[-1] if isinstance(e[-1], int) else
                                     e[3])) for e in others[:4]])
        # W5100 bookkeeping
        ww = [(e[1], e[2], e[3]) for e in evs(s, 'wwrite')]
        wr = {}
        cmds = []
        for a, v, pc in ww:
            if a == 0x0401:
                cmds.append((v, dict(wr), pc))
            else:
                wr[a] = v
        rep.check([c[0] for c in cmds] == [0x40], "recv-command", "op_ack",
                  "socket commands issued: %s; expected exactly RECV ($40)" %
                  [show(c[0]) for c in cmds])
        if cmds:
            at = cmds[-1][1]
            hi = at.get(0x0428)
            lo = at.get(0x0429)
            rep.check(hi == ('+', ('a', 'W0428'), 8) and
                      lo in (None, 0, ('a', 'W0429')), "rx-pointer", "op_ack",
                      "RX read pointer at the RECV command is (hi=%s, lo=%s); "
                      "expected its previous value plus $0800" % (
                          show(hi) if hi is not None else "unchanged",
                          show(lo) if lo is not None else "unchanged"))
        extra = sorted(set(wr) - {0x0428, 0x0429})
        rep.check(not extra, "w5100-registers", "op_ack",
                  "also writes W5100 registers %s" % ["$%04X" % a
                                                      for a in extra])
    # the receive-size test: exactly "at least 2048 bytes"
    rsr = ('a', 'w0426')
    n = 0
    for k, s in m.keyinfo.items():
        lo, hi = s.ranges.get(rsr, (0, 255))
        if (lo, hi) == (0, 255):
            continue
        n += 1
        rep.check((lo, hi) in ((0, 7), (8, 255)), "receive-threshold",
                  "op_ack", "the received-size test splits at high byte %d..%d"
                  " (%s): it must proceed exactly when at least 2048 bytes are"
                  " pending" % (lo, hi, p.where(s.pc)))
    for t in terms:
        lo, hi = t.state.ranges.get(rsr, (0, 255))
        rep.check(lo >= 8, "receive-threshold", "op_ack",
                  "dispatches with only %d*256 bytes known to be pending" % lo)
    # every state that saw too little data must loop back, never fall out
    rep.count("received-size states", n)


def P06(rep, tier):
    rep.explanation = (
        "Memory layout of the linked player: segment bounds, and every byte "
        "fetched as an instruction by the playback loop or after the screen "
        "has been cleared, against the memory the screen and ROM own.")
    p, ops = analyse_all()
    rep.count("segments", len(p.segs))
    allowed = [(0x0800, 0x2000), (0x2000, 0x4000), (0x4000, 0xBF00)]
    for name, (start, size) in p.segs.items():
        end = start + size
        rep.check(any(lo <= start and end <= hi for lo, hi in allowed),
                  "segment-bounds", name, "segment %s occupies $%04X-$%04X; "
                  "only $0800-$1FFF, $2000-$3FFF (startup only) and "
                  "$4000-$BEFF are free" % (name, start, end - 1),
                  "$%04X-$%04X" % (start, end - 1))
    iv = sorted((s, s + z, n) for n, (s, z) in p.segs.items())
    for (a, b, n1), (c, d, n2) in zip(iv, iv[1:]):
        rep.check(b <= c, "segments-disjoint", n1 + "/" + n2,
                  "segments %s and %s overlap at $%04X" % (n1, n2, c))

    def visible(a):
        return 0x2000 <= a < 0x4000 or 0x400 <= a < 0x800 or a < 0x200

    nb = 0
    for o in ops.values():
        bad = sorted(a for a in o.m.fetched if visible(a))
        nb += len(o.m.fetched)
        rep.check(not bad, "not-in-screen", o.name,
                  "%s executes code at %s, inside memory that is cleared and "
                  "overwritten during playback" % (
                      o.name, p.where(bad[0]) if bad else ""))
    from sa.checks.player_start import startup
    m = startup(p)
    bad = set()
    for k, s in m.keyinfo.items():
        if "cleared" in s.tags:
            nb += 1
            if visible(s.pc):
                bad.add(s.pc)
    rep.check(not bad, "not-in-screen", "startup",
              "startup code at %s runs after the screen holding it has been "
              "cleared" % (p.where(min(bad)) if bad else ""))
    t = p.syms.get("op_terminate")
    if t is None:
        raise AnalysisError("label op_terminate has vanished")
    mt = Machine(p)
    mt.run(mt.entry(t, X=0))
    bad = sorted(a for a in mt.fetched if visible(a))
    rep.check(not bad, "not-in-screen", "op_terminate",
              "op_terminate executes code at %s" % (
                  p.where(bad[0]) if bad else ""))
    # data read by the quit call must survive too
    for x in mt.terminals:
        if x.kind == "quit":
            a = x.detail
            ptr = p.mem[a + 1] | p.mem[a + 2] << 8
            rep.check(not visible(ptr) and not visible(a), "not-in-screen",
                      "exit_parmtable", "the QUIT parameter table is inside "
                      "the screen")
    rep.count("instruction bytes", nb)
    rep.need("instruction bytes", 10000)
