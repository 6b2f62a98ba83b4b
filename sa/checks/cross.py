"""X-series: agreement between the player and the transcoder."""

import os

from sa.report import AnalysisError, REPO
from sa.player import build
from sa.player.build import parse_dbg
from sa.py.drive import Analysis
from .common import finish

# files are read from the repository through this stand-in
FS = """
class F:
    def __init__(self, p):
        self.p = p
        self.lines = None
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return False
    def read(self, n=-1):
        return __event__("file", self.p)
    def readlines(self):
        return [x + "\\n" for x in self.read().split("\\n")]
    def __iter__(self):
        return iter(self.readlines())
    def close(self):
        pass
def open(p, m="r", *a, **k):
    return F(p)
"""

IMPORTS = "import __fs__, opcodes, machine, video_mode\n"


def opcode_analysis(stubs=None, imports="", text=None, budget=10 ** 8,
                    script=None):
    """the transcoder with its opcode table (from the committed player
    symbols, or from the given text)"""
    a = Analysis(["transcoder"], IMPORTS + imports,
                 dict({"__fs__": FS}, **(stubs or {})), budget=budget,
                 script=script)

    def hook(vm, st, args):
        if args[0] == "file":
            if text is not None:
                return text
            p = os.path.join(REPO, str(args[1]))
            if not os.path.exists(p):
                raise AnalysisError("no file %s" % (args[1],))
            return open(p).read()
        return None
    a.vm.hooks["event"] = hook
    return a


def small_dbg():
    """a symbol file with distinct addresses for all opcodes"""
    names = ["header", "terminate", "nop", "ack"] + [
        "tick_%d_page_%d" % (t, g) for t in range(4, 67, 2)
        for g in range(32, 64)]
    return "\n".join(
        ["version\tmajor=2,minor=0", "info\tcsym=0"] +
        ['sym\tid=%d,name="op_%s",addrsize=absolute,scope=0,def=1,'
         'val=0x%04X,seg=0,type=lab' % (i, n, 0x8003 + 9 * i)
         for i, n in enumerate(names)] + [""])


X01_MAIN = """
import opcodes
from __spec__ import ADDR
for t in range(4, 67, 2):
    for p in range(32, 64):
        want = ADDR["op_tick_%d_page_%d" % (t, p)]
        op = opcodes.TICK_OPCODES[(t, p)](0, (0, 0, 0, 0))
        got = tuple(op.emit_command(op))
        __check__(got == (want >> 8, want & 255),
                  "emitted-address tick_%d_page_%d" % (t, p),
                  "the opcode for tick %d, page %d emits address bytes %r, "
                  "the player has it at $%04X" % (t, p, got, want))
for n, op in (("nop", opcodes.Nop()), ("terminate", opcodes.Terminate()),
              ("ack", opcodes.Ack(False)), ("ack", opcodes.Ack(True))):
    want = ADDR["op_" + n]
    got = tuple(op.emit_command(op))
    __check__(got == (want >> 8, want & 255), "emitted-address " + n,
              "%s emits address bytes %r, the player has it at $%04X" % (
              n, got, want))
"""

X02_MAIN = """
import opcodes, machine, video_mode

def emit(op):
    return list(machine.Machine().emit(op))

names = ["header", "terminate", "nop", "ack"] + [
    "tick_%d_page_%d" % (t, g) for t in range(4, 67, 2)
    for g in range(32, 64)]
ADDR = {n: 0x8003 + 9 * i for i, n in enumerate(names)}

def addr(n):
    return [ADDR[n] >> 8, ADDR[n] & 255]

VM = [("HGR", 0), ("DHGR", 1)]
for n, v in VM:
    h = emit(opcodes.Header(mode=video_mode.VideoMode[n]))
    __check__(len(h) == 7 and h[6] == v, "header " + n,
              "the %s header is %r" % (n, h))
    for b in h[:6]:
        __check__(0 <= b and b <= 255, "header bytes", "not a byte")

for n, op in (("nop", opcodes.Nop()), ("terminate", opcodes.Terminate())):
    __check__(emit(op) == addr(n), "address only " + n,
              "%s is encoded as %r" % (n, emit(op)))
for aux, sw in ((False, 0x54), (True, 0x55)):
    op = opcodes.Ack(aux)
    e = emit(op)
    __check__(len(e) == 4 and e[:2] == addr("ack"), "ack length and address",
              "the acknowledge opcode is encoded as %r" % (e,))
    __check__(e[2] == sw, "ack soft switch %s" % aux,
              "acknowledge with aux=%s selects $C0%02X" % (aux, e[2]))
    __check__(0 <= e[3] and e[3] <= 255, "ack pad byte", "not a byte")
t = 4 + 2 * __choose__(32)
p = 32 + __choose__(32)
c = __any_int__("content", 0, 255)
o = tuple([__any_int__("offset", 0, 255) for i in range(4)])
if __any_bool__():
    o = list(o)
op = opcodes.TICK_OPCODES[(t, p)](c, o)
e = emit(op)
__check__(len(e) == 7, "tick length", "a tick opcode has %d bytes" % len(e))
__check__(e[:2] == addr("tick_%d_page_%d" % (t, p)), "tick address first",
          "tick_%d_page_%d is emitted with another address" % (t, p))
__check__(e[2] == c, "tick content", "the content byte is not third")
for i in range(4):
    __check__(e[3 + i] == o[i], "tick offset %d" % i,
              "offset %d is not byte %d" % (i, 3 + i))
__check__(emit(op) == e, "encoding repeatable", "encoding an opcode twice "
          "gives different bytes")
ok = False
n = [0, 1, 2, 3, 5, 6][__choose__(6)]
try:
    opcodes.TICK_OPCODES[(t, p)](c, (0,) * n)
except ValueError:
    ok = True
__check__(ok, "four offsets required", "an opcode with %d offsets is "
          "accepted" % n)
"""


def X01(rep, tier):
    rep.explanation = (
        "Symbols of the player assembled from the working tree compared with "
        "the committed debug file the transcoder takes opcode addresses from.")
    p = build.load()
    if not p.committed_dbg:
        raise AnalysisError("player/iivision.dbg has vanished")
    segs, syms, spans, lines, files = parse_dbg(p.committed_dbg)
    com = {}
    for f in syms:
        if f.get("name", "").startswith("op_") and f.get("type") == "lab":
            com.setdefault(f["name"], []).append(int(f["val"], 0))
    want = ["op_header", "op_terminate", "op_nop", "op_ack"] + [
        "op_tick_%d_page_%d" % (t, g) for t in range(4, 67, 2)
        for g in range(32, 64)]
    for n in want:
        if n not in p.syms:
            rep.fail("assembled", n, "the player source has no label %s" % n)
            continue
        rep.check(com.get(n) == [p.syms[n]], "address-agrees", n,
                  "%s assembles to $%04X but the committed debug symbols say "
                  "%s" % (n, p.syms[n], ["$%04X" % v for v in
                                         com.get(n, [])]),
                  "$%04X" % p.syms[n])
    rep.count("opcode symbols", len(want))
    vals = {}
    for n in want:
        if n in p.syms:
            vals.setdefault(p.syms[n], []).append(n)
    for v, ns in vals.items():
        rep.check(len(ns) == 1, "distinct", ns[0], "labels %s share address "
                  "$%04X" % (ns, v))

    spec = "ADDR = %r\n" % {n: p.syms[n] for n in want if n in p.syms}
    if not rep.violations:
        a = opcode_analysis({"__spec__": spec})
        finish(rep, a, X01_MAIN, 1027, "emitted addresses")


def X02(rep, tier):
    rep.explanation = (
        "Abstract interpretation of opcodes.py and machine.py: the bytes "
        "emitted for every opcode with unknown content and offsets.")
    a = opcode_analysis(text=small_dbg())
    finish(rep, a, X02_MAIN, 18)
