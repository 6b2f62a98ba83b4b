import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from psim import Sim, Stop
s = Sim(os.getcwd())
S = s.syms
def op(t, p): return S["op_tick_%d_page_%d" % (t, p)]
def hl(a): return bytes([a >> 8, a & 255])
END = 0x0300

s.playing()
a, b, c = op(36, 40), op(6, 41), op(4, 42)
s.stream(bytes([1, 2, 3, 4, 5]) + hl(b) + bytes([6, 7, 8, 9, 10]) + hl(c))
s.cpu.pc = a
s.run(a, (b,)); s.run(b, (c,), 60)
