from seedtool import seed
PRE = '''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from psim import Sim, Stop
s = Sim(os.getcwd())
S = s.syms
def op(t, p): return S["op_tick_%d_page_%d" % (t, p)]
def hl(a): return bytes([a >> 8, a & 255])
END = 0x0300
'''
M = "player/main.s"
seed("p04-x-not-restored", "P04",
 "an op_tick_36 opcode with a non-zero third offset, followed later by an opcode that ends in the op_tick_6 tail",
 "op_tick_36 leaves X non-zero, so the next op_tick_6 family opcode writes the low byte of its jump somewhere else",
 [(M, "    STA page << 8,X ; 5\n    LDX #$00 ; 2\n    NOP ; 2\n    ; used >3 pad cycles between tick pair and",
      "    STA page << 8,X ; 5\n    NOP ; 2\n    NOP ; 2\n    ; used >3 pad cycles between tick pair and")],
 PRE + '''
s.playing()
a, b, c = op(36, 40), op(6, 41), op(4, 42)
s.stream(bytes([1, 2, 3, 4, 5]) + hl(b) + bytes([6, 7, 8, 9, 10]) + hl(c))
s.cpu.pc = a
s.run(a, (b,)); s.run(b, (c,), 60)
''', ["psim.py"])
seed("p04-stale-jump", "P04",
 "an op_tick_52 opcode whose successor lies on another page than the previous use of the shared tail",
 "op_tick_52 patches the high byte of the wrong opcode's jump, so it dispatches through a stale operand",
 [(M, 'STA .ident (.concat ("_op_tick_6_page_", .string(page), "_jmp"))+2 ; 4\n    STA TICK ; 4\n    NOP ; 2',
      'STA .ident (.concat ("_op_tick_4_page_", .string(page), "_jmp"))+2 ; 4\n    STA TICK ; 4\n    NOP ; 2')],
 PRE + '''
s.playing()
a, b = op(52, 33), op(20, 60)
s.stream(bytes([1, 2, 3, 4, 5]) + hl(b))
s.run(a, (b,), 60)
''', ["psim.py"])
seed("p05-ack-carry", "P05",
 "arriving at the acknowledgement with the carry set, as it is after every wait for data",
 "the receive pointer is advanced by 2304 instead of 2048 at every acknowledgement",
 [(M, "    CLC ; 2\n", "    NOP ; 2\n")],
 PRE + '''
s.playing()
s.ptr = 0x67fc
s.stream(bytes([0x54, 0xff]), 0x67fc)
s.chip[0x428] = 0x18
s.rx_hook = lambda: 0x0900
nxt = op(10, 50)
# after the 4 bytes come 2 padding ones in this demo's frame
s.ptr = 0x67fe; s.stream(bytes([0x54, 0xff]), 0x67fe)
s.stream(hl(nxt), 0x6800)
s.run(S["op_ack"], (nxt,))
assert s.chip[0x428] == 0x20, hex(s.chip[0x428])
assert s.cmds and s.cmds[-1][0] == 0x40
assert s.ptr == 0x6802, hex(s.ptr)
''', ["psim.py"])
seed("p05-wait-any", "P05",
 "network data arriving so that between 256 and 2047 bytes are pending at a frame boundary",
 "playback resumes with less than a frame pending and reads past the received data",
 [(M, "CMP #$08        ; 2 expect at least 2k", "CMP #$01        ; 2 expect at least 2k")],
 PRE + '''
s.playing()
s.ptr = 0x67fe; s.stream(bytes([0x54, 0xff]), 0x67fe)
nxt = op(10, 50)
s.stream(hl(nxt), 0x6800)
polls = []
def rx():
    polls.append(1)
    return 0x0500 if len(polls) < 5 else 0x0800
s.rx_hook = rx
s.run(S["op_ack"], (nxt,))
assert len(polls) >= 5, polls
''', ["psim.py"])
seed("p09-strobe", "P09",
 "a key held pending at a frame boundary",
 "the first key is not consumed, so it also ends the pause at once",
 [(M, "    ; Wait for second keypress to resume\n    BIT KBDSTRB ; clear strobe\n@1: BIT KBD", "    ; Wait for second keypress to resume\n@1: BIT KBD")],
 PRE + '''
s.playing()
s.ptr = 0x67fe; s.stream(bytes([0x54, 0xff]), 0x67fe)
nxt = op(10, 50)
s.stream(hl(nxt), 0x6800)
s.rx_hook = lambda: 0x0900
s.key = 0xA0
n = [0]
def kb():
    n[0] += 1
    if n[0] == 20: s.key = 0xA0
s.kbd_hook = kb
s.run(S["op_ack"], (nxt,))
assert n[0] >= 20, n
''', ["psim.py"])
seed("p03-tail-offset", "P03",
 "an op_tick_34 opcode whose third and fourth offsets differ",
 "op_tick_34 stores twice at its third offset and never at its fourth",
 [(M, "    STA page << 8,Y ; 5\n    STA page << 8,X ; 5\n\n    LDX #$00 ; 2 restore X=0 invariant\n\n    JMP .ident(.concat(\"_op_tick_page_\", .string(page), \"_tail_20\"))",
      "    STA page << 8,Y ; 5\n    STA page << 8,Y ; 5\n\n    LDX #$00 ; 2 restore X=0 invariant\n\n    JMP .ident(.concat(\"_op_tick_page_\", .string(page), \"_tail_20\"))")],
 PRE + '''
s.playing()
a, b = op(34, 45), op(6, 41)
s.stream(bytes([0x7e, 2, 3, 4, 5]) + hl(b))
s.run(a, (b,), 60)
assert all(s.ram[0x2D00 + o] == 0x7e for o in (2, 3, 4, 5))
''', ["psim.py"])
seed("p08-power-up", "P08",
 "pressing Reset during playback",
 "the power-up byte does not match the vector, so Reset reboots instead of quitting to ProDOS",
 [(M, "    EOR #$A5\n", "    EOR #$A4\n")],
 PRE + '''
s.sr_hook = lambda: 0x13
s.run(S["bootstrap"], (S["reset_w5100"],))
assert s.ram[0x3f4] == s.ram[0x3f3] ^ 0xA5
''', ["psim.py"])
seed("p07-endless-retry", "P07",
 "a server that refuses every connection attempt",
 "the retry counter is set again on every attempt, so the player never gives up",
 [(M, "    LDA   #6    ; 5 RETRIES TO GET CONNECTION\n    STA   ptr   ; NUMBER OF RETRIES\n\nreset_w5100:\n",
      "reset_w5100:\n    LDA   #6    ; 5 RETRIES TO GET CONNECTION\n    STA   ptr   ; NUMBER OF RETRIES\n\n")],
 PRE + '''
n = [0]
def sr():
    n[0] += 1
    return 0x13 if n[0] % 2 else 0
s.sr_hook = sr
s.run(S["bootstrap"], (S["ERRDONE"],))
''', ["psim.py"])
seed("p10-aux-garbage", "P10",
 "a Double Hi-Res stream, with auxiliary screen memory not already blank",
 "the second clear runs with main memory selected, so the auxiliary screen shows old contents",
 [(M, "    STA PAGE2ON ; AUX memory active\n", "    STA PAGE2OFF ; AUX memory active\n")],
 PRE + '''
s.playing()
s.ptr = 0x6006
s.stream(bytes([1]), 0x6006)
s.run(S["_op_header_hgr"], (S["checkrecv"],))
assert {a for a, z in s.cleared} == {False, True}, s.cleared
''', ["psim.py"])
seed("p02-late-tick", "P02",
 "sample values that select op_tick_54",
 "the pulse of op_tick_54 is two cycles short while the opcode still takes 73 cycles",
 [(M, "    LDA WDATA ; 4\n    \n    STA zpdummy ; 3\n    STA zpdummy ; 3\n\n    STA TICK ; 4\n\n    ; used >3 pad cycles between tick pair; can't branch to tail\n    STA @D+2 ; 4",
      "    LDA WDATA ; 4\n    \n    STA dummy ; 4\n\n    STA TICK ; 4\n\n    ; used >3 pad cycles between tick pair; can't branch to tail\n    NOP ; 2\n    STA @D+2 ; 4")],
 PRE + '''
s.playing()
a, b = op(54, 45), op(4, 41)
s.stream(bytes([0x7e, 2, 3, 4, 5]) + hl(b))
s.run(a, (b,), 60)
assert s.cpu.processorCycles == 73, s.cpu.processorCycles
assert s.ticks[1] - s.ticks[0] == 54, s.ticks
''', ["psim.py"])
seed("p01-page-tail", "P01",
 "op_tick_14 opcodes, i.e. one particular negative sample value",
 "op_tick_14 joins the tail of the other parity and takes 72 cycles",
 [(M, '    NOP ; 2\n    STA TICK ; 4\n    \n    JMP .ident(.concat("_op_tick_page_", .string(page), "_tail_52"))',
      '    NOP ; 2\n    STA TICK ; 4\n    \n    JMP .ident(.concat("_op_tick_page_", .string(page), "_tail_51"))')],
 PRE + """
s.playing()
for p in range(32, 64):
    a, b = op(14, p), op(4, p)
    s.stream(bytes([0x7e, 2, 3, 4, 5]) + hl(b)); s.ptr = 0x6000
    c = s.cpu.processorCycles
    s.run(a, (b,), 60)
    assert s.cpu.processorCycles - c == 73, (p, s.cpu.processorCycles - c)
""", ["psim.py"])
