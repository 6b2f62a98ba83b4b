import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from psim import Sim, Stop
s = Sim(os.getcwd())
S = s.syms
def op(t, p): return S["op_tick_%d_page_%d" % (t, p)]
def hl(a): return bytes([a >> 8, a & 255])
END = 0x0300

s.playing()
for p in range(32, 64):
    a, b = op(14, p), op(4, p)
    s.stream(bytes([0x7e, 2, 3, 4, 5]) + hl(b)); s.ptr = 0x6000
    c = s.cpu.processorCycles
    s.run(a, (b,), 60)
    assert s.cpu.processorCycles - c == 73, (p, s.cpu.processorCycles - c)
