import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from psim import Sim, Stop
s = Sim(os.getcwd())
S = s.syms
def op(t, p): return S["op_tick_%d_page_%d" % (t, p)]
def hl(a): return bytes([a >> 8, a & 255])
END = 0x0300

s.sr_hook = lambda: 0x13
s.run(S["bootstrap"], (S["reset_w5100"],))
assert s.ram[0x3f4] == s.ram[0x3f3] ^ 0xA5
