"""Dataflow analysis of 6502 machine code (documented NMOS opcodes).

Abstract byte values
  int             a constant
  ('s', j)        the j-th byte consumed from the network stream on this path
  ('sh', j)/('sl', j)  high/low byte of the W5100 address of stream position j
  ('a', name)     an atom: an unknown fixed for this path (entry register, one
                  particular device read)
  ('+', v, n)     v plus constant n modulo 256
  TOP             anything
Branches refine an interval per value; both edges are followed unless the
interval refutes one.  States are kept disjunctive and deduplicated, so wait
loops reach a fixpoint.  There is no execution and no solver: an abstract
transfer function per instruction and a worklist."""

from sa.report import AnalysisError

TOP = ('T',)

# mnemonic, mode, cycles.  modes: imp acc imm zp zpx zpy abs abx aby ind inx iny rel
_T = """
69 ADC imm 2;65 ADC zp 3;75 ADC zpx 4;6D ADC abs 4;7D ADC abx 4;79 ADC aby 4;61 ADC inx 6;71 ADC iny 5
29 AND imm 2;25 AND zp 3;35 AND zpx 4;2D AND abs 4;3D AND abx 4;39 AND aby 4;21 AND inx 6;31 AND iny 5
0A ASL acc 2;06 ASL zp 5;16 ASL zpx 6;0E ASL abs 6;1E ASL abx 7
90 BCC rel 2;B0 BCS rel 2;F0 BEQ rel 2;30 BMI rel 2;D0 BNE rel 2;10 BPL rel 2;50 BVC rel 2;70 BVS rel 2
24 BIT zp 3;2C BIT abs 4;00 BRK imp 7
18 CLC imp 2;D8 CLD imp 2;58 CLI imp 2;B8 CLV imp 2;38 SEC imp 2;F8 SED imp 2;78 SEI imp 2
C9 CMP imm 2;C5 CMP zp 3;D5 CMP zpx 4;CD CMP abs 4;DD CMP abx 4;D9 CMP aby 4;C1 CMP inx 6;D1 CMP iny 5
E0 CPX imm 2;E4 CPX zp 3;EC CPX abs 4;C0 CPY imm 2;C4 CPY zp 3;CC CPY abs 4
C6 DEC zp 5;D6 DEC zpx 6;CE DEC abs 6;DE DEC abx 7;CA DEX imp 2;88 DEY imp 2
49 EOR imm 2;45 EOR zp 3;55 EOR zpx 4;4D EOR abs 4;5D EOR abx 4;59 EOR aby 4;41 EOR inx 6;51 EOR iny 5
E6 INC zp 5;F6 INC zpx 6;EE INC abs 6;FE INC abx 7;E8 INX imp 2;C8 INY imp 2
4C JMP abs 3;6C JMP ind 5;20 JSR abs 6
A9 LDA imm 2;A5 LDA zp 3;B5 LDA zpx 4;AD LDA abs 4;BD LDA abx 4;B9 LDA aby 4;A1 LDA inx 6;B1 LDA iny 5
A2 LDX imm 2;A6 LDX zp 3;B6 LDX zpy 4;AE LDX abs 4;BE LDX aby 4
A0 LDY imm 2;A4 LDY zp 3;B4 LDY zpx 4;AC LDY abs 4;BC LDY abx 4
4A LSR acc 2;46 LSR zp 5;56 LSR zpx 6;4E LSR abs 6;5E LSR abx 7
EA NOP imp 2
09 ORA imm 2;05 ORA zp 3;15 ORA zpx 4;0D ORA abs 4;1D ORA abx 4;19 ORA aby 4;01 ORA inx 6;11 ORA iny 5
48 PHA imp 3;08 PHP imp 3;68 PLA imp 4;28 PLP imp 4
2A ROL acc 2;26 ROL zp 5;36 ROL zpx 6;2E ROL abs 6;3E ROL abx 7
6A ROR acc 2;66 ROR zp 5;76 ROR zpx 6;6E ROR abs 6;7E ROR abx 7
40 RTI imp 6;60 RTS imp 6
E9 SBC imm 2;E5 SBC zp 3;F5 SBC zpx 4;ED SBC abs 4;FD SBC abx 4;F9 SBC aby 4;E1 SBC inx 6;F1 SBC iny 5
85 STA zp 3;95 STA zpx 4;8D STA abs 4;9D STA abx 5;99 STA aby 5;81 STA inx 6;91 STA iny 6
86 STX zp 3;96 STX zpy 4;8E STX abs 4;84 STY zp 3;94 STY zpx 4;8C STY abs 4
AA TAX imp 2;A8 TAY imp 2;BA TSX imp 2;8A TXA imp 2;9A TXS imp 2;98 TYA imp 2
"""
OPC = {}
for _row in _T.replace("\n", ";").split(";"):
    if _row.strip():
        _a, _b, _c, _d = _row.split()
        OPC[int(_a, 16)] = (_b, _c, int(_d))
LEN = dict(imp=1, acc=1, imm=2, zp=2, zpx=2, zpy=2, abs=3, abx=3, aby=3, ind=3,
           inx=2, iny=2, rel=2)
STORES = {"STA", "STX", "STY"}
RMW = {"ASL", "LSR", "ROL", "ROR", "INC", "DEC"}

# Apple II addresses
KBD, KBDSTRB, TICK = 0xC000, 0xC010, 0xC030
WMODE, WADRH, WADRL, WDATA = 0xC094, 0xC095, 0xC096, 0xC097
RXBASE, RXEND = 0x6000, 0x8000
VOLATILE = {0x0401, 0x0402, 0x0403, 0x0420, 0x0421, 0x0426, 0x0427}
ROM = {0xF3F2: "HGR0", 0xF3E2: "HGR", 0xFDED: "COUT", 0xFDDA: "PRBYTE",
       0xF941: "PRNTAX"}
PRODOS = 0xBF00


def add(v, n):
    n &= 255
    if isinstance(v, int):
        return (v + n) & 255
    if n == 0:
        return v
    if v[0] == '+':
        n2 = (v[2] + n) & 255
        return v[1] if n2 == 0 else ('+', v[1], n2)
    if v == TOP:
        return TOP
    return ('+', v, n)


def mentions(v, atom):
    return isinstance(v, tuple) and (
        v == atom or any(mentions(x, atom) for x in v[1:]
                         if isinstance(x, tuple)))


def show(v):
    if isinstance(v, int):
        return "$%02X" % v
    if v == TOP:
        return "unknown"
    if v[0] == 's':
        return "stream[%d]" % v[1]
    if v[0] == '+':
        return "%s+%d" % (show(v[1]), v[2])
    if v[0] in ('sh', 'sl'):
        return "%s(address of stream[%d])" % (
            "hi" if v[0] == 'sh' else "lo", v[1])
    return str(v[1])


class State:
    __slots__ = ("pc", "A", "X", "Y", "N", "Z", "C", "D", "mem", "ranges",
                 "ptr", "mode", "wreg", "stack", "nread", "cyc", "waited",
                 "events", "path", "tags")

    def copy(self):
        s = State()
        for k in State.__slots__:
            setattr(s, k, getattr(self, k))
        s.mem = dict(self.mem)
        s.ranges = dict(self.ranges)
        s.wreg = dict(self.wreg)
        return s

    def key(self, live_events):
        return (self.pc, self.A, self.X, self.Y, self.N, self.Z, self.C,
                self.D, tuple(sorted(self.mem.items())),
                tuple(sorted(self.ranges.items(), key=repr)), self.ptr,
                self.mode, tuple(sorted(self.wreg.items())), self.stack,
                self.nread, None if self.waited else self.cyc, self.waited,
                self.events if live_events else len(self.events), self.tags)


class Event(tuple):
    """(kind, ...)"""


class Terminal:
    def __init__(self, kind, state, detail=None, graph_key=None):
        self.kind = kind      # 'dispatch' 'halt' 'quit' 'illegal' 'lost'
        self.state = state
        self.detail = detail


class Machine:
    """One analysis of one entry point."""

    def __init__(self, player, frame_lo=None, max_states=60000, hook=None):
        self.hook = hook
        self.p = player
        self.frame_lo = frame_lo   # low byte of the address of stream[0]
        self.max_states = max_states
        self.fetched = {}      # code address -> set of (patched?)
        self.unpatched = set()  # instruction bytes fetched straight from image
        self.written = {}      # program cell written -> pc of the writer
        self.terminals = []
        self.graph = {}        # key -> [key]
        self.keyinfo = {}
        self.instr = 0
        self.unpatched_by = {}

    # ------------------------------------------------------------------
    def entry(self, pc, **kw):
        s = State()
        s.pc = pc
        s.A = kw.get("A", ('a', 'A0'))
        s.X = kw.get("X", ('a', 'X0'))
        s.Y = kw.get("Y", ('a', 'Y0'))
        s.N = s.Z = s.C = TOP
        s.D = kw.get("D", 0)
        s.mem = {}
        s.ranges = {}
        s.ptr = kw.get("ptr", ('stream', 0))
        s.mode = kw.get("mode", 3)
        s.wreg = {}
        s.stack = ()
        s.nread = kw.get("nread", 0)
        s.cyc = 0
        s.waited = False
        s.events = ()
        s.path = frozenset()
        s.tags = kw.get("tags", frozenset())
        return s

    def run(self, s0):
        work = [(s0, None)]
        seen = set()
        while work:
            s, parent = work.pop()
            k = s.key(True)
            if parent is not None:
                self.graph.setdefault(parent, []).append(k)
            if k in seen:
                continue
            seen.add(k)
            self.keyinfo[k] = s
            if len(seen) > self.max_states:
                raise AnalysisError(
                    "more than %d abstract states from $%04X" % (
                        self.max_states, s0.pc))
            for t in self.step(s):
                work.append((t, k))
        self.nstates = len(seen)
        return self.terminals

    # -- helpers ---------------------------------------------------------
    def log(self, s, e):
        """Append to the path's event list; once the path has gone round a
        loop (or waited for the user) the list is a set, so it stays finite."""
        if self.hook:
            self.hook(s, e)
        if e[0] in ('strobe', 'key'):
            last = None
            for x in reversed(s.events):
                if x[0] in ('strobe', 'key'):
                    last = x
                    break
            if last == e or (e[0] == 'key' and e[1] == 0 and last and
                             any(x[0] == 'key' for x in s.events)):
                return
        elif s.waited:
            if e[0] == 'tick':
                e = ('tick', None, e[2])
            if e in s.events:
                return
        s.events = s.events + (e,)

    def rng(self, s, v):
        if isinstance(v, int):
            return v, v
        return s.ranges.get(v, (0, 255))

    def fresh(self, s, name):
        a = ('a', name)
        for r in ("A", "X", "Y"):
            if mentions(getattr(s, r), a):
                setattr(s, r, TOP)
        for r in ("N", "Z", "C"):
            v = getattr(s, r)
            if isinstance(v, tuple) and mentions(v, a):
                setattr(s, r, TOP)
        for d in (s.mem, s.wreg):
            for k, v in list(d.items()):
                if mentions(v, a):
                    d[k] = TOP
        for k in list(s.ranges):
            if mentions(k, a):
                del s.ranges[k]
        if s.tags:
            s.tags = frozenset(x for x in s.tags if not (
                isinstance(x, tuple) and mentions(x[1], a)))
        if s.ptr[0] == 'reg' and (mentions(s.ptr[1], a) or
                                  mentions(s.ptr[2], a)):
            s.ptr = ('reg', TOP, TOP)
        return a

    def slo(self, j):
        if self.frame_lo is not None:
            return (self.frame_lo + j) & 255
        return ('sl', j)

    def setptr(self, s, hi, lo):
        if isinstance(hi, tuple) and hi[0] == 'sh' and lo == self.slo(hi[1]):
            s.ptr = ('stream', hi[1])
        else:
            s.ptr = ('reg', hi, lo)

    def ptr_bytes(self, s):
        if s.ptr[0] == 'stream':
            return ('sh', s.ptr[1]), self.slo(s.ptr[1])
        return s.ptr[1], s.ptr[2]

    def bump(self, s):
        if s.mode == TOP or not (isinstance(s.mode, int) and s.mode & 2):
            if s.mode == TOP:
                s.ptr = ('reg', TOP, TOP)
            return
        if s.ptr[0] == 'stream':
            s.ptr = ('stream', s.ptr[1] + 1)
            return
        hi, lo = s.ptr[1], s.ptr[2]
        if isinstance(hi, int) and isinstance(lo, int):
            a = (hi << 8 | lo) + 1
            if a == RXEND:
                a = RXBASE
            s.ptr = ('reg', (a >> 8) & 255, a & 255)
        else:
            s.ptr = ('reg', TOP, TOP)

    # -- device ------------------------------------------------------------
    def io_touch(self, s, addr, cycle, what):
        if 0xC030 <= addr <= 0xC03F:
            self.log(s, ('tick', cycle, s.pc))

    def read(self, s, addr, pc, cycle):
        """abstract byte at a constant address"""
        if 0xC000 <= addr <= 0xCFFF:
            self.io_touch(s, addr, cycle, 'r')
            if addr == WDATA:
                if s.ptr[0] == 'stream':
                    j = s.ptr[1]
                    v = ('s', j)
                    self.log(s, ('sread', j, s.pc))
                    s.nread = max(s.nread, j + 1)
                    self.bump(s)
                    return v
                hi, lo = s.ptr[1], s.ptr[2]
                if isinstance(hi, int) and isinstance(lo, int):
                    a = hi << 8 | lo
                    if RXBASE <= a < RXEND:
                        j = a - RXBASE
                        self.log(s, ('sread', j, s.pc))
                        s.nread = max(s.nread, j + 1)
                        v = ('s', j)
                    elif a in s.wreg and a not in VOLATILE:
                        v = s.wreg[a]
                    elif a in VOLATILE:
                        v = self.fresh(s, "w%04X" % a)
                    else:
                        v = ('a', "W%04X" % a)
                    self.log(s, ('wread', a, s.pc))
                else:
                    self.log(s, ('wlost', s.pc))
                    v = TOP
                self.bump(s)
                return v
            if addr == WADRH:
                return self.ptr_bytes(s)[0]
            if addr == WADRL:
                return self.ptr_bytes(s)[1]
            if addr == WMODE:
                return s.mode
            if addr == KBD:
                return self.fresh(s, "kbd")
            if addr == KBDSTRB:
                self.log(s, ('strobe', s.pc))
                return self.fresh(s, "kbdstrb")
            if not 0xC030 <= addr <= 0xC03F:
                self.log(s, ('ioread', addr, s.pc))
            return self.fresh(s, "io%04X" % addr)
        if addr in s.mem:
            return s.mem[addr]
        if self.p.loaded[addr]:
            return self.p.mem[addr]
        return ('a', "m%04X" % addr)

    def write(self, s, addr, v, pc, cycle):
        if 0xC000 <= addr <= 0xCFFF:
            self.io_touch(s, addr, cycle, 'w')
            if addr == WDATA:
                if s.ptr[0] == 'stream':
                    self.log(s, ('rxwrite', s.pc))
                    self.bump(s)
                    return
                hi, lo = s.ptr[1], s.ptr[2]
                if isinstance(hi, int) and isinstance(lo, int):
                    a = hi << 8 | lo
                    s.wreg[a] = v
                    self.log(s, ('wwrite', a, v, s.pc))
                else:
                    self.log(s, ('wlost', s.pc))
                self.bump(s)
            elif addr == WADRH:
                self.setptr(s, v, self.ptr_bytes(s)[1])
            elif addr == WADRL:
                self.setptr(s, self.ptr_bytes(s)[0], v)
            elif addr == WMODE:
                s.mode = v
                self.log(s, ('wmode', v, s.pc))
                if v == 0x80:
                    s.wreg = {}
                    s.mode = 0
            elif 0xC030 <= addr <= 0xC03F:
                pass
            elif addr == KBDSTRB:
                self.log(s, ('strobe', s.pc))
            else:
                self.log(s, ('switch', addr, s.pc))
            return
        s.mem[addr] = v
        self.log(s, ('store', addr, v, s.pc))
        if self.p.loaded[addr]:
            self.written.setdefault(addr, s.pc)

    # -- fetch ---------------------------------------------------------------
    def fetch(self, s, a):
        a &= 0xFFFF
        if a in s.mem:
            self.fetched.setdefault(a, set()).add(True)
            return s.mem[a]
        self.fetched.setdefault(a, set()).add(False)
        self.unpatched_by.setdefault(a, s.pc)
        return self.p.mem[a]

    def stop(self, kind, s, detail=None):
        self.terminals.append(Terminal(kind, s, detail))
        return []

    def setnz(self, s, v):
        if isinstance(v, int):
            s.N, s.Z = v >> 7, int(v == 0)
        elif v == TOP:
            s.N = s.Z = TOP
        else:
            s.N, s.Z = ('b7', v), ('eq', v, 0)

    def step(self, s):
        pc = s.pc
        if not self.p.loaded[pc]:
            return self.stop('lost', s, "execution reaches $%04X, which the "
                             "player does not load" % pc)
        if pc in s.path:
            s.waited = True
        op = self.fetch(s, pc)
        if not isinstance(op, int):
            return self.stop('lost', s, "self-modified opcode byte at $%04X"
                             % pc)
        if op not in OPC:
            return self.stop('illegal', s, "undocumented opcode $%02X at %s" %
                             (op, self.p.where(pc)))
        mn, mode, cyc = OPC[op]
        n = LEN[mode]
        self.instr += 1
        o1 = self.fetch(s, pc + 1) if n > 1 else None
        o2 = self.fetch(s, pc + 2) if n > 2 else None
        t = s.copy()
        t.path = s.path | {pc}
        t.pc = pc   # so events carry the instruction's own address
        nxt = (pc + n) & 0xFFFF
        start = s.cyc
        t.cyc = start + cyc
        last = t.cyc - 1

        def done():
            t.pc = nxt
            return [t]

        if mn == "BRK":
            return self.stop('halt', t, "BRK")
        if mn in ("RTI", "PHP", "PLP", "TSX", "TXS"):
            raise AnalysisError("unmodelled instruction %s at %s" % (
                mn, self.p.where(pc)))
        if mn == "NOP" or mn in ("CLI", "SEI", "CLV"):
            return done()
        if mn in ("CLC", "SEC"):
            t.C = int(mn == "SEC")
            return done()
        if mn in ("CLD", "SED"):
            t.D = int(mn == "SED")
            return done()
        if mn == "JMP" and mode == "abs":
            if isinstance(o1, int) and isinstance(o2, int):
                t.pc = o2 << 8 | o1
                if t.pc == pc:
                    return self.stop('halt', t, "JMP to itself")
                if not self.p.loaded[t.pc]:
                    return self.stop('jump', t, t.pc)
                return [t]
            return self.stop('dispatch', t, (o2, o1))
        if mn == "JMP":
            if isinstance(o1, int) and isinstance(o2, int):
                a = o2 << 8 | o1
                b = (a & 0xFF00) | ((a + 1) & 255)   # NMOS page wrap
                lo = self.read(t, a, pc, last - 1)
                hi = self.read(t, b, pc, last)
                if isinstance(lo, int) and isinstance(hi, int):
                    t.pc = hi << 8 | lo
                    return [t]
                return self.stop('dispatch', t, (hi, lo))
            return self.stop('lost', t, "indirect jump through an unknown "
                             "address at %s" % self.p.where(pc))
        if mn == "JSR":
            if not (isinstance(o1, int) and isinstance(o2, int)):
                return self.stop('lost', t, "JSR to an unknown address")
            a = o2 << 8 | o1
            if a == PRODOS:
                return self.stop('quit', t, pc + 3)
            if a in ROM:
                self.log(t, ('rom', ROM[a], t.A, pc))
                if ROM[a] == "COUT":      # preserves A, X, Y
                    pass
                else:
                    t.A = t.X = t.Y = TOP
                t.N = t.Z = t.C = TOP
                t.D = t.D
                t.waited = True
                t.pc = nxt
                if ROM[a] in ("HGR0", "HGR"):
                    t.tags = t.tags | {"cleared"}
                    if self.read(t, 0xE6, pc, 0) != 0x20:
                        self.log(t, ('clearpage', self.read(t, 0xE6, pc, 0),
                                      pc))
                return [t]
            if self.p.loaded[a]:
                if len(t.stack) > 30:
                    return self.stop('lost', t, "stack too deep")
                t.stack = t.stack + ((nxt - 1) >> 8, (nxt - 1) & 255)
                t.pc = a
                return [t]
            return self.stop('lost', t, "JSR $%04X: unknown routine" % a)
        if mn == "RTS":
            if len(t.stack) < 2 or not all(isinstance(x, int)
                                           for x in t.stack[-2:]):
                return self.stop('lost', t, "RTS without a known return "
                                 "address at %s" % self.p.where(pc))
            hi, lo = t.stack[-2:]
            t.stack = t.stack[:-2]
            t.pc = ((hi << 8 | lo) + 1) & 0xFFFF
            return [t]
        if mn == "PHA":
            t.stack = t.stack + (t.A,)
            return done()
        if mn == "PLA":
            if not t.stack:
                return self.stop('lost', t, "PLA on an empty stack")
            t.A = t.stack[-1]
            t.stack = t.stack[:-1]
            self.setnz(t, t.A)
            return done()
        if mode == "rel":
            return self.branch(t, mn, pc, nxt, o1)
        if mode in ("imp", "acc") and mn not in RMW:
            if mn in ("INX", "DEX", "INY", "DEY"):
                r = mn[2]
                v = add(getattr(t, r), 1 if mn[0] == "I" else 255)
                setattr(t, r, v)
                self.setnz(t, v)
            else:   # transfers
                v = getattr(t, mn[1])
                setattr(t, mn[2], v)
                self.setnz(t, v)
            return done()
        if mode == "acc":
            t.A = self.shift(t, mn, t.A)
            return done()

        # -- effective address
        if mode == "imm":
            val = o1
            return self.alu(t, mn, val, done)
        ea, idx = None, None
        if mode == "zp":
            if not isinstance(o1, int):
                return self.stop('lost', t, "unknown zero page operand")
            ea = o1
        elif mode == "abs":
            if isinstance(o1, int) and isinstance(o2, int):
                ea = o2 << 8 | o1
            elif isinstance(o2, int) and o2 == 0xC0:
                # a soft switch chosen at run time
                self.log(t, ('switchvar', o1, mn, pc, last))
                if mn in STORES:
                    return done()
                if mn in RMW:
                    return self.stop('lost', t, "RMW on a computed soft "
                                     "switch")
                return self.alu(t, mn, TOP, done)
            else:
                self.log(t, ('storevar', o2, o1, mn, pc))
                if mn in STORES:
                    return done()
                return self.alu(t, mn, TOP, done)
        elif mode in ("zpx", "zpy"):
            r = t.X if mode == "zpx" else t.Y
            if isinstance(r, int) and isinstance(o1, int):
                ea = (o1 + r) & 255
            else:
                idx = (o1, r)
        elif mode in ("abx", "aby"):
            r = t.X if mode == "abx" else t.Y
            if not (isinstance(o1, int) and isinstance(o2, int)):
                self.log(t, ('storevar', o2, o1, mn, pc))
                if mn in STORES:
                    return done()
                return self.alu(t, mn, TOP, done)
            base = o2 << 8 | o1
            if isinstance(r, int):
                ea = (base + r) & 0xFFFF
                dummy = (base & 0xFF00) | (ea & 255)
                if mn in STORES or mn in RMW:
                    if 0xC000 <= dummy <= 0xCFFF:
                        if dummy in (WDATA, KBDSTRB):
                            self.read(t, dummy, pc, last - 1)
                        else:
                            self.io_touch(t, dummy, last - 1 if mn in STORES
                                          else start + 3, 'r')
                elif (base ^ ea) & 0xFF00:
                    t.cyc += 1
                    last += 1
                    self.io_touch(t, dummy, last - 1, 'r')
            else:
                idx = (base, r)
                if mn not in STORES and mn not in RMW and o1:
                    t.waited = True      # cycle count depends on the index
                    self.log(t, ('cyclevar', pc))
        else:
            raise AnalysisError("unmodelled addressing mode %s at %s" % (
                mode, self.p.where(pc)))

        if idx is not None:
            base, r = idx
            if mn in STORES:
                v = getattr(t, mn[2])
                self.log(t, ('istore', base, r, v, pc, last))
                # the index is unknown: the store may hit any cell of the
                # 256-byte window
                for a in range(base, base + 256):
                    a &= 0xFFFF
                    if a in t.mem:
                        t.mem[a] = TOP
                return done()
            if mn in RMW:
                return self.stop('lost', t, "RMW with an unknown index")
            self.log(t, ('iload', base, r, pc))
            return self.alu(t, mn, TOP, done)

        if mn in STORES:
            self.write(t, ea, getattr(t, mn[2]), pc, last)
            return done()
        if mn in RMW:
            v = self.read(t, ea, pc, last - 2)
            if 0xC000 <= ea <= 0xCFFF:
                self.write(t, ea, v, pc, last - 1)
            v2 = add(v, 1) if mn == "INC" else add(v, 255) if mn == "DEC" \
                else self.shift(t, mn, v)
            if mn in ("INC", "DEC"):
                self.setnz(t, v2)
            self.write(t, ea, v2, pc, last)
            return done()
        val = self.read(t, ea, pc, last)
        return self.alu(t, mn, val, done)

    def shift(self, t, mn, v):
        if isinstance(v, int) and (mn in ("ASL", "LSR") or t.C in (0, 1)):
            c = t.C if t.C in (0, 1) else 0
            if mn == "ASL":
                r, co = (v << 1) & 255, v >> 7
            elif mn == "LSR":
                r, co = v >> 1, v & 1
            elif mn == "ROL":
                r, co = ((v << 1) | c) & 255, v >> 7
            else:
                r, co = (v >> 1) | (c << 7), v & 1
            t.C = co
        else:
            r = TOP
            t.C = TOP
        self.setnz(t, r)
        return r

    def alu(self, t, mn, v, done):
        if mn in ("LDA", "LDX", "LDY"):
            setattr(t, mn[2], v)
            self.setnz(t, v)
        elif mn in ("CMP", "CPX", "CPY"):
            r = t.A if mn == "CMP" else getattr(t, mn[2])
            if isinstance(v, int):
                if isinstance(r, int):
                    t.C = int(r >= v)
                    t.Z = int(r == v)
                    t.N = ((r - v) & 255) >> 7
                else:
                    t.C = ('ge', r, v) if r != TOP else TOP
                    t.Z = ('eq', r, v) if r != TOP else TOP
                    t.N = ('b7', add(r, -v)) if r != TOP else TOP
            else:
                t.C = t.Z = t.N = TOP
        elif mn in ("ADC", "SBC"):
            if t.D == 0 and isinstance(v, int) and t.C in (0, 1):
                k = v if mn == "ADC" else v ^ 255
                if isinstance(t.A, int):
                    tot = t.A + k + t.C
                    t.A, t.C = tot & 255, tot >> 8
                else:
                    t.A = add(t.A, k + t.C)
                    t.C = TOP
            elif t.D == 0 and isinstance(t.A, int) and mn == "ADC" and \
                    t.C in (0, 1):
                t.A = add(v, t.A + t.C)
                t.C = TOP
            else:
                t.A = t.C = TOP
            self.setnz(t, t.A)
        elif mn in ("AND", "ORA", "EOR"):
            if isinstance(t.A, int) and isinstance(v, int):
                t.A = {"AND": t.A & v, "ORA": t.A | v, "EOR": t.A ^ v}[mn]
            elif mn == "AND" and 255 in (t.A, v):
                t.A = v if t.A == 255 else t.A
            elif mn == "AND" and 0 in (t.A, v):
                t.A = 0
            elif mn in ("ORA", "EOR") and 0 in (t.A, v):
                t.A = v if t.A == 0 else t.A
            else:
                t.A = TOP
            self.setnz(t, t.A)
        elif mn == "BIT":
            if isinstance(v, int):
                t.N = v >> 7
                t.Z = int(t.A & v == 0) if isinstance(t.A, int) else TOP
            else:
                t.N = ('b7', v) if v != TOP else TOP
                t.Z = TOP
        else:
            raise AnalysisError("unmodelled instruction %s" % mn)
        return done()

    def branch(self, t, mn, pc, nxt, rel):
        if not isinstance(rel, int):
            return self.stop('lost', t, "self-modified branch offset")
        tgt = (nxt + (rel - 256 if rel > 127 else rel)) & 0xFFFF
        flag, want = {"BCC": ("C", 0), "BCS": ("C", 1), "BEQ": ("Z", 1),
                      "BNE": ("Z", 0), "BMI": ("N", 1), "BPL": ("N", 0),
                      "BVC": ("V", 0), "BVS": ("V", 1)}[mn]
        f = TOP if flag == "V" else getattr(t, flag)
        out = []
        for val in (0, 1):
            taken = val == want
            u = self.assume(t, flag, f, val)
            if u is None:
                continue
            u.pc = tgt if taken else nxt
            if taken:
                u.cyc += 1 + int((tgt ^ nxt) >> 8 != 0)
            if not self.p.loaded[u.pc]:
                self.stop('lost', u, "branch out of the player")
                continue
            out.append(u)
        return out

    def assume(self, t, flag, f, val):
        u = t.copy()
        if flag != "V":
            setattr(u, flag, val)
        if f in (0, 1):
            return u if f == val else None
        if f == TOP:
            return u
        v = f[1]
        lo, hi = self.rng(t, v)
        if f[0] == 'ge':
            nlo, nhi = (max(lo, f[2]), hi) if val else (lo, min(hi, f[2] - 1))
        elif f[0] == 'b7':
            nlo, nhi = (max(lo, 128), hi) if val else (lo, min(hi, 127))
        else:   # eq
            k = f[2]
            if val:
                nlo, nhi = max(lo, k), min(hi, k)
                if nlo <= nhi and ('ne', v, k) in t.tags:
                    return None
            else:
                nlo, nhi = (lo + 1 if lo == k else lo), \
                    (hi - 1 if hi == k else hi)
                u.tags = frozenset(x for x in u.tags if not (
                    isinstance(x, tuple) and x[0] == 'ne')) | {('ne', v, k)}
        if nlo > nhi:
            return None
        if (nlo, nhi) != (lo, hi):
            u.ranges[v] = (nlo, nhi)
        if v == ('a', 'kbd'):
            if nlo >= 128:
                u.waited = True
                self.log(u, ('key', 1, t.pc))
            elif nhi <= 127:
                self.log(u, ('key', 0, t.pc))
        if val == 1 and f[0] == 'eq' and not isinstance(v, int):
            self.log(u, ('is', v, f[2], t.pc))
        return u
