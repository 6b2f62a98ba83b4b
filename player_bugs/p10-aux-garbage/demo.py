import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from psim import Sim, Stop
s = Sim(os.getcwd())
S = s.syms
def op(t, p): return S["op_tick_%d_page_%d" % (t, p)]
def hl(a): return bytes([a >> 8, a & 255])
END = 0x0300

s.playing()
s.ptr = 0x6006
s.stream(bytes([1]), 0x6006)
s.run(S["_op_header_hgr"], (S["checkrecv"],))
assert {a for a, z in s.cleared} == {False, True}, s.cleared
