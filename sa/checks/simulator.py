"""M-series: the player simulator (simulator/)."""

from sa.py.drive import Analysis
from .common import finish

# soft switches of the Apple //e: name, clear, set, status address, and
# whether a read of the clear/set address also operates the switch
SPEC = '''
SWITCHES = [
    ("80STORE", 0xc000, 0xc001, 0xc018, False),
    ("RAMRD", 0xc002, 0xc003, 0xc013, False),
    ("RAMWRT", 0xc004, 0xc005, 0xc014, False),
    ("INTCXROM", 0xc006, 0xc007, 0xc015, False),
    ("ALTZP", 0xc008, 0xc009, 0xc016, False),
    ("SLOTC3ROM", 0xc00a, 0xc00b, 0xc017, False),
    ("80COL", 0xc00c, 0xc00d, 0xc01f, False),
    ("ALTCHARSET", 0xc00e, 0xc00f, 0xc01e, False),
    ("TEXT", 0xc050, 0xc051, 0xc01a, True),
    ("MIXED", 0xc052, 0xc053, 0xc01b, True),
    ("PAGE2", 0xc054, 0xc055, 0xc01c, True),
    ("HIRES", 0xc056, 0xc057, 0xc01d, True),
]
'''

M01_IMPORTS = '''
import machine, memory, uthernet, apple2
uth = uthernet.Uthernet(b"")
a2 = apple2.AppleII(uth)
a2.memory_manager.enable()
'''

M01_MAIN = '''
from __imports__ import a2
from __spec__ import SWITCHES

def operate(addr, on_read):
    """one access that operates a switch; False if the simulator refuses"""
    try:
        if on_read and __any_bool__():
            a2.memory[addr]
        else:
            a2.memory[addr] = __any_int__("v", 0, 255)
    except NotImplementedError:
        return False
    return True

def other(ss):
    """any I/O access that is not this switch's"""
    a = __any_int__("ioaddr", 0xc000, 0xc0ff)
    __assume__(a != ss[1])
    __assume__(a != ss[2])
    try:
        if __any_bool__():
            a2.memory[a]
        else:
            a2.memory[a] = __any_int__("v", 0, 255)
    except Exception:
        pass

def check(ss, want, rule):
    r = a2.memory[ss[3]]
    if want:
        __check__(r & 0x80 == 0x80, rule + " " + ss[0],
                  "reading $%04X after setting the switch does not return "
                  "bit 7 set" % ss[3])
    else:
        __check__(r & 0x80 == 0, rule + " " + ss[0],
                  "reading $%04X after clearing the switch returns bit 7 set"
                  % ss[3])

ss = SWITCHES[__choose__(len(SWITCHES))]
# any earlier accesses to this switch
n = __choose__(3)
if n == 1:
    operate(ss[1], ss[4])
elif n == 2:
    operate(ss[2], ss[4])
want = __any_bool__()
if operate(ss[2] if want else ss[1], ss[4]):
    check(ss, want, "status")
    k = __choose__(2)
    if k == 1:
        other(ss)
        check(ss, want, "status-kept")
'''


def M01(rep, tier):
    rep.explanation = (
        "Abstract interpretation of simulator/*.py: every soft switch of the "
        "Apple //e I/O page is operated through the memory interceptors and "
        "its status address read back.")
    a = Analysis(["simulator"], M01_IMPORTS, {"__spec__": SPEC})
    finish(rep, a, M01_MAIN, 12)


M02_MAIN = """
from __imports__ import a2, uth
from py65.memory import LOG

def chip(kind):
    return [(x[2], x[3]) for x in LOG if x[0] is not a2.memory
            and x[1] == kind]

def setptr(h, l):
    if __any_bool__():
        a2.memory[0xc095] = h
        a2.memory[0xc096] = l
    else:
        a2.memory[0xc096] = l
        a2.memory[0xc095] = h

def setmode(ai):
    a2.memory[0xc094] = 3 if ai else 1

# an arbitrary history leaves an arbitrary mode and pointer
if __any_bool__():
    setmode(__any_bool__())
if __any_bool__():
    setptr(__any_int__("h0", 0, 255), __any_int__("l0", 0, 255))

ai = __any_bool__()
h = __any_int__("h", 0x40, 0x7f)
l = __any_int__("l", 0, 255)
first = __any_bool__()
if first:
    setmode(ai)
setptr(h, l)
if not first:
    setmode(ai)
want = h * 256 + l
__assume__(want < 0x7ff0)
rule = "auto-increment" if ai else "no auto-increment"
step = 1 if ai else 0
for i in range(3):
    LOG.clear()
    if __any_bool__():
        v = a2.memory[0xc097]
        rd = chip("r")
        __check__(len(rd) == 1 and rd[0][0] == want, rule + ": read %d" % i,
                  "data port read number %d after setting the pointer does "
                  "not read the chip at pointer%s" % (
                  i + 1, "+%d" % i if ai else ""))
        __check__(len(chip("w")) == 0 and rd[0][1] == v,
                  "data port read returns the byte " + rule,
                  "data port read does not return the chip's byte")
    else:
        b = __any_int__("b", 0, 255)
        a2.memory[0xc097] = b
        wr = chip("w")
        __check__(len(wr) == 1 and wr[0][0] == want, rule + ": write %d" % i,
                  "data port write number %d after setting the pointer does "
                  "not write the chip at pointer%s" % (
                  i + 1, "+%d" % i if ai else ""))
        __check__(wr[0][1] == b, "data port write stores the byte " + rule,
                  "data port write stores another byte")
    want += step
"""

M02_SOCK = """
from __imports__ import a2, uth

def setptr(a):
    a2.memory[0xc095] = a >> 8
    a2.memory[0xc096] = a & 0xff

def put(a, v):
    setptr(a)
    a2.memory[0xc097] = v

def get(a):
    setptr(a)
    return a2.memory[0xc097]

a2.memory[0xc094] = 3
m = a2.memory[0xc094]
__check__(m == 3, "mode register reads back", "mode written 3 reads %r" % m)
put(0x400, 0x21)
put(0x401, 0x01)
__check__(get(0x403) == 0x13, "OPEN -> SOCK_INIT",
          "status after OPEN is not $13")
if __any_bool__():
    # unrelated register writes keep the status
    put(0x404, __any_int__("p", 0, 255))
    put(0x410, __any_int__("q", 0, 255))
    __check__(get(0x403) == 0x13, "status kept", "status changed by "
              "writing port registers")
put(0x401, 0x04)
__check__(get(0x403) == 0x17, "CONNECT -> SOCK_ESTABLISHED",
          "status after CONNECT is not $17")
b = __any_int__("mac", 0, 255)
k = __choose__(8)
reg = [0x1, 0x5, 0x9, 0xf, 0x12, 0x1a, 0x404, 0x411][k]
put(reg, b)
__check__(get(reg) == b, "register keeps its value", "register $%04X does "
          "not read back what was written" % reg)
"""


def M02(rep, tier):
    rep.explanation = (
        "Abstract interpretation of simulator/*.py: indirect accesses to the "
        "network chip through the four I/O locations, for any pointer value "
        "set in any order after any earlier pointer and mode.")
    a = Analysis(["simulator"], M01_IMPORTS, {"__spec__": SPEC})
    finish(rep, a, M02_MAIN, 16)
    finish(rep, a, M02_SOCK, 21)


M03_MAIN = """
from __imports__ import a2
from py65.memory import LOG

def writes():
    return [(x[2], x[3]) for x in LOG if x[0] is a2.memory and x[1] == "w"]

AREAS = [("slot ROM", 0xc100, 0xc7ff, False), ("ROM", 0xd000, 0xffff, False),
         ("zero page and stack", 0x0000, 0x01ff, True),
         ("text page", 0x0400, 0x07ff, True),
         ("free RAM", 0x0800, 0x1fff, True),
         ("hires page", 0x2000, 0x3fff, True),
         ("high RAM", 0x6000, 0xbfff, True)]
name, lo, hi, ram = AREAS[__choose__(len(AREAS))]
a = __any_int__("addr", lo, hi)
v = __any_int__("v", 0, 255)
LOG.clear()
try:
    a2.memory[a] = v
    refused = False
except Exception as e:
    refused = True
w = writes()
if ram:
    __check__(not refused, "RAM writable: " + name,
              "a store to %s is refused" % name)
    __check__(len(w) == 1 and w[0][0] == a and w[0][1] == v,
              "RAM keeps the byte: " + name,
              "a store to %s does not keep the stored byte" % name)
else:
    __check__(refused and len(w) == 0, "ROM protected: " + name,
              "a store to %s changes memory" % name)
"""

M03_FS = """
class F:
    def __init__(self, p):
        self.p = p
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return False
    def read(self, n=-1):
        return __event__("file", self.p)
    def close(self):
        pass
def open(p, m="r", *a, **k):
    return F(p)
"""
M03_PROC = """
def run(args):
    __event__("run", args)
    return 0
"""
M03_LOAD = """
import simulator, apple2, uthernet
class Stop(BaseException):
    pass
state = {}
def Run(self, pc, trace=False):
    state["a2"] = self
    state["pc"] = pc
    raise Stop()
apple2.AppleII.Run = Run
try:
    simulator.main()
except Stop:
    pass
a2 = state["a2"]
__event__("end", state["pc"], a2.memory[0x36], a2.memory[0x37])
__check__(True, "loaded", "")
r = True
try:
    a2.memory[0xd000] = 1
    r = False
except Exception:
    pass
__check__(r, "protection enabled before the run",
          "the CPU can write ROM: memory protection is not enabled")
"""


def M03(rep, tier):
    rep.explanation = (
        "Abstract interpretation of simulator/*.py: a store of any byte to "
        "any address of each memory area; and of simulator.main: which bytes "
        "of the ROM image are placed where.")
    import random
    rng = random.Random(20)
    files = {"ROM": bytes(rng.randrange(256) for _ in range(0x8000)),
             "out.bin": b"\xff" * 7,
             "ethernet.bin": bytes(rng.randrange(256) for _ in range(700))}
    a = Analysis(["simulator"], M01_IMPORTS, {"__spec__": SPEC})
    finish(rep, a, M03_MAIN, 12)

    a = Analysis(["simulator"], "import simulator, __fs__, __proc__\n", {
        "__fs__": M03_FS, "__proc__": M03_PROC})
    mem = {}
    seen = {}

    def hook(vm, st, args):
        if args[0] == "file":
            for k, v in files.items():
                if str(args[1]).endswith(k):
                    seen[k] = True
                    return v
            return b""
        if args[0] == "memory.write":
            for i, b in enumerate(args[2]):
                mem[args[1] + i] = b
        if args[0] == "end":
            seen["end"] = args[1:]
        return None
    a.vm.hooks["event"] = hook
    finish(rep, a, M03_LOAD, 14)
    if "ROM" not in seen or "ethernet.bin" not in seen or "end" not in seen:
        from sa.report import AnalysisError
        raise AnalysisError("simulator.main no longer loads %s" % seen)
    rom = files["ROM"]
    for name, lo, n, src in (("slot 6 ROM", 0xc600, 0x100, 0x600),
                             ("main ROM", 0xd000, 0x3000, 0x5000)):
        bad = [lo + i for i in range(n) if mem.get(lo + i) != rom[src + i]]
        rep.check(not bad, "image", name, "%d of %d bytes of the %s are not "
                  "loaded at their address (first $%04X)" % (
                      len(bad), n, name, bad[0] if bad else 0))
    eb = files["ethernet.bin"]
    pc = seen["end"][0]
    rep.check(all(mem.get(pc + i) == b for i, b in enumerate(eb)), "image",
              "player", "the program file is not loaded where it is started")
    rep.check(tuple(seen["end"][1:]) == (0xf0, 0xfd), "image", "COUT vector",
              "COUT vector is %r" % (seen["end"][1:],))


M04_MAIN = """
from __imports__ import a2, apple2
from py65.memory import LOG

CALLS = []
# handlers of the entry points, wrapped to record that they were run
# with the CPU, in order
areas = [("ROM", 0xd000, 0xffff), ("slot 6 ROM", 0xc600, 0xc6ff),
         ("slot 2 ROM", 0xc200, 0xc2ff), ("zero page", 0x00, 0xff),
         ("stack", 0x100, 0x1ff), ("text page", 0x400, 0x7ff),
         ("free RAM", 0x6000, 0xbfff), ("HiRes page 1", 0x2000, 0x2fff)]
i = __choose__(len(areas))
j = __choose__(len(areas))
src = areas[i]
dst = areas[j]
old = __any_int__("old", src[1], src[2])
pc = __any_int__("pc", dst[1], dst[2])
KNOWN = [0xf3e2, 0xfca8, 0xfded, 0xfe89]
at_entry = False
if dst[0] == "ROM":
    if __any_bool__():
        pc = KNOWN[__choose__(4)]
        at_entry = True
    else:
        for k in KNOWN:
            __assume__(pc != k)
rts = __any_bool__()
op = __any_int__("opcode", 0, 255)
if rts:
    op = 0x60
else:
    __assume__(op != 0x60)
a2.memory.poke(old, op)
a2.cpu.pc = pc
raised = False
try:
    a2.memory_manager.MaybeInterceptExecution(a2.cpu, old)
except Exception:
    raised = True
name = "%s -> %s" % (src[0], dst[0])
if i == j or rts or at_entry:
    __check__(not raised, "transfer allowed " + name,
              "a transfer that is not into another region through an "
              "unknown entry point is refused (%s)" % name)
else:
    __check__(raised, "transfer trapped " + name,
              "entering %s from %s at an address that is no entry point is "
              "not reported" % (dst[0], src[0]))
"""

M04_RUN = """
from __imports__ import a2, apple2
from py65.memory import LOG

TRACE = []
STEPS = []
def step():
    STEPS.append(a2.cpu.pc)
    if len(STEPS) >= 3:
        __stop__()
    a2.cpu.pc = __any_int__("next", 0x6000, 0xbfff)
    return a2.cpu
a2.cpu.step = step
def intercept(cpu, old_pc):
    TRACE.append((cpu.pc, old_pc))
a2.memory_manager.MaybeInterceptExecution = intercept
start = __any_int__("start", 0x6000, 0xbfff)
n = 0
a2.Run(start, __any_bool__())
k = len(STEPS)
__check__(k >= 1 and STEPS[0] == start, "run starts at the given address",
          "the first instruction executed is not at the start address")
last = STEPS[k - 1]
__check__(a2.cpu.pc == last, "run stops only at a jump to itself",
          "the run stops although the last instruction moved on")
__check__(len(TRACE) == k, "every instruction is supervised",
          "%d of %d instructions were supervised" % (len(TRACE), k))
for m in range(k):
    __check__(TRACE[m][0] == STEPS[m],
              "supervised address is the one executed",
              "the address supervised is not the one executed next")
    if m:
        __check__(TRACE[m][1] == STEPS[m - 1],
                  "supervisor is told the previous address",
                  "the previous address is not passed to the supervisor")
"""

M04_ENTRY = """
import memory
CALLS = []
def rec(cpu):
    CALLS.append(cpu)
m = memory.MemoryManager([memory.MemoryRegion(
    "area", 0x1000, 0x1fff, entrypoints={0x1234: rec})])
m.enable()
class Cpu:
    pass
cpu = Cpu()
cpu.pc = __any_int__("pc", 0x1000, 0x1fff)
old = __any_int__("old", 0x1000 if __any_bool__() else 0x3000, 0x3fff)
__assume__((old < 0x2000) | (old >= 0x3000))
try:
    m.MaybeInterceptExecution(cpu, old)
except memory.UndefinedEntryPointException:
    pass
if cpu.pc == 0x1234:
    __check__(len(CALLS) == 1 and CALLS[0] is cpu, "entry point handler runs",
              "reaching an entry point runs its handler %d times" % len(CALLS))
else:
    __check__(len(CALLS) == 0, "handler runs only at its entry point",
              "an entry point handler runs at another address")
"""


def M04(rep, tier):
    rep.explanation = (
        "Abstract interpretation of simulator/*.py: any transfer of control "
        "between memory areas, with and without an entry point, through the "
        "execution supervisor; and the run loop over an arbitrary CPU.")
    a = Analysis(["simulator"], M01_IMPORTS, {"__spec__": SPEC})
    finish(rep, a, M04_MAIN, 120)
    finish(rep, a, M04_ENTRY, 122)
    finish(rep, a, M04_RUN, 127)


M05_MAIN = """
from __imports__ import a2, uth
from __spec__ import SWITCHES

IO = {0xc030: "rw", 0xc094: "rw", 0xc095: "w", 0xc096: "w", 0xc097: "rw"}
for n, c, s, g, rw in SWITCHES:
    IO[c] = IO[s] = "rw" if rw else "w"
    IO[g] = "r"

def attempt(mem, a, write):
    try:
        if write:
            mem[a] = __any_int__("v", 0, 255)
        else:
            mem[a]
    except Exception:
        return False
    return True

write = __any_bool__()
what = "write" if write else "read"
if __any_bool__():
    # an I/O location that is not modelled
    a = __any_int__("ioaddr", 0xc000, 0xc0ff)
    for k in IO:
        __assume__(a != k)
    __check__(not attempt(a2.memory, a, write), "unmodelled I/O " + what,
              "a %s of an I/O location nothing handles is ignored" % what)
else:
    keys = sorted(IO)
    a = keys[__choose__(len(keys))]
    if ("w" if write else "r") not in IO[a]:
        __check__(not attempt(a2.memory, a, write),
                  "wrong direction %s $%04X" % (what, a),
                  "a %s of $%04X, which has no such effect, is not reported"
                  % (what, a))
"""

M05_CHIP = """
from __imports__ import a2, uth

def attempt(mem, a, write):
    try:
        if write:
            mem[a] = __any_int__("v", 0, 255)
        else:
            mem[a]
    except Exception:
        return False
    return True

write = __any_bool__()
what = "write" if write else "read"
lo, hi = [(0x1e, 0x27), (0x13, 0x14), (0x417, 0x41f), (0x42a, 0x7ff)][
    __choose__(4)]
a = __any_int__("chipaddr", lo, hi)
__check__(not attempt(uth.memory, a, write),
          "unmodelled chip register %s $%x" % (what, lo),
          "a %s of a network chip register nothing handles is ignored" % what)
"""


def M05(rep, tier):
    rep.explanation = (
        "Abstract interpretation of simulator/*.py: reads and writes of every "
        "address of the I/O page and of the network chip's register areas.")
    a = Analysis(["simulator"], M01_IMPORTS, {"__spec__": SPEC})
    finish(rep, a, M05_MAIN, 20)
    finish(rep, a, M05_CHIP, 28)
