import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from psim import Sim, Stop
s = Sim(os.getcwd())
S = s.syms
def op(t, p): return S["op_tick_%d_page_%d" % (t, p)]
def hl(a): return bytes([a >> 8, a & 255])
END = 0x0300

s.playing()
s.ptr = 0x67fc
s.stream(bytes([0x54, 0xff]), 0x67fc)
s.chip[0x428] = 0x18
s.rx_hook = lambda: 0x0900
nxt = op(10, 50)
# after the 4 bytes come 2 padding ones in this demo's frame
s.ptr = 0x67fe; s.stream(bytes([0x54, 0xff]), 0x67fe)
s.stream(hl(nxt), 0x6800)
s.run(S["op_ack"], (nxt,))
assert s.chip[0x428] == 0x20, hex(s.chip[0x428])
assert s.cmds and s.cmds[-1][0] == 0x40
assert s.ptr == 0x6802, hex(s.ptr)
