import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from psim import Sim, Stop
s = Sim(os.getcwd())
S = s.syms
def op(t, p): return S["op_tick_%d_page_%d" % (t, p)]
def hl(a): return bytes([a >> 8, a & 255])
END = 0x0300

s.playing()
a, b = op(54, 45), op(4, 41)
s.stream(bytes([0x7e, 2, 3, 4, 5]) + hl(b))
s.run(a, (b,), 60)
assert s.cpu.processorCycles == 73, s.cpu.processorCycles
assert s.ticks[1] - s.ticks[0] == 54, s.ticks
