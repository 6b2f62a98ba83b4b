import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from psim import Sim, Stop
s = Sim(os.getcwd())
S = s.syms
def op(t, p): return S["op_tick_%d_page_%d" % (t, p)]
def hl(a): return bytes([a >> 8, a & 255])
END = 0x0300

s.playing()
s.ptr = 0x67fe; s.stream(bytes([0x54, 0xff]), 0x67fe)
nxt = op(10, 50)
s.stream(hl(nxt), 0x6800)
s.rx_hook = lambda: 0x0900
s.key = 0xA0
n = [0]
def kb():
    n[0] += 1
    if n[0] == 20: s.key = 0xA0
s.kbd_hook = kb
s.run(S["op_ack"], (nxt,))
assert n[0] >= 20, n
