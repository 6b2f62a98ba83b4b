import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from psim import Sim, Stop
s = Sim(os.getcwd())
S = s.syms
def op(t, p): return S["op_tick_%d_page_%d" % (t, p)]
def hl(a): return bytes([a >> 8, a & 255])
END = 0x0300

n = [0]
def sr():
    n[0] += 1
    return 0x13 if n[0] % 2 else 0
s.sr_hook = sr
s.run(S["bootstrap"], (S["ERRDONE"],))
