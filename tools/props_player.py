"""Player (6502) properties: (id, title, statement, over, quantifier text, why, files, mechanism, technique, note)"""
A = "abstract interpretation of the assembled 6502 code"
TRUST = ("Decides the property for every path of the decoded machine code, "
         "assuming documented NMOS 6502 timing, the W5100 indirect-mode "
         "interface as in its data sheet, ROM routines that return, and that "
         "cc65 (ca65/ld65) assembles what it is given. ")
M = "player/main.s"

PROPS = [
dict(id="P01", title="Every audio/video opcode takes exactly 73 cycles",
 statement="Each of the player's 32x32 audio/video opcodes (speaker interval 4..66 step 2, screen page 32..63) takes exactly 73 CPU cycles from its first instruction to the jump to the next opcode, whatever bytes it is fed. This is what makes the speaker carrier frequency and the playback speed constant.",
 over=["inputs", "programs"], q="all 1024 opcodes, all stream bytes they may be fed, all paths through shared code tails",
 why="No test assembles or runs the player; the cycle sum of each of 1024 macro expansions, including jumps into tails of other expansions, is only visible by following the machine code.",
 files=[M], mech=[("op_tick_* macros, shared _op_tick_page_*_tail_* labels", M)], tech=A + ": cycle sums along every path",
 note=TRUST),
dict(id="P02", title="Each audio opcode toggles the speaker twice, N cycles apart",
 statement="Each audio/video opcode with speaker interval N toggles the speaker exactly twice, exactly N cycles apart (except that N=22 and N=40 are one cycle short, as the source documents), and always the same number of cycles after its first instruction. So the pulse width encodes the audio sample exactly and pulse starts are evenly spaced.",
 over=["inputs", "programs"], q="all 1024 opcodes and all stream bytes",
 why="No test covers the player; a toggle may hide in an indexed or read-modify-write access, and pulse timing depends on the whole path.",
 files=[M], mech=[("placement of STA TICK in op_tick_* macros", M)], tech=A + ": speaker access times",
 note=TRUST),
dict(id="P03", title="An opcode's four stores hit exactly the streamed offsets of its page",
 statement="Each audio/video opcode for screen page P stores the one content byte it reads from the stream at exactly the four streamed offsets of page P, and writes nowhere else that anything depends on (other than its own dispatch operand). It touches no soft switch but the speaker.",
 over=["inputs", "programs"], q="all 1024 opcodes, all content and offset bytes",
 why="No test covers the player; which register holds which stream byte at each store differs per macro and through shared tails.",
 files=[M], mech=[("STA page<<8,Y / ,X sequences and shared tails", M)], tech=A + ": store effects over symbolic stream bytes",
 note=TRUST),
dict(id="P04", title="Opcodes consume exactly their bytes and dispatch to the streamed address",
 statement="Each audio/video opcode consumes exactly seven stream bytes (content, four offsets, then high and low byte of the next opcode's address) and the no-op exactly two, and control passes to exactly that streamed address with the decode loop's invariants (X zero, stack empty, decimal mode off, network chip in auto-increment mode) re-established. No opcode ever executes a jump operand left behind by an earlier opcode.",
 over=["inputs", "programs", "histories"], q="all opcodes, all streams, all orders of opcodes",
 why="No test covers the player; a stale self-modified operand or a lost invariant only shows after particular opcode sequences.",
 files=[M], mech=[("self-modified JMP operands, LDX #$00 restores", M)], tech=A + ": stream position, self-modified operand and typestate tracking",
 note=TRUST),
dict(id="P05", title="The 2K acknowledgement keeps position, flow control and audio timing",
 statement="When the acknowledge opcode ends a 2048-byte frame, the player sets the streamed soft switch, advances the network chip's receive pointer by exactly 2048 and issues one receive command, then resumes at the first byte of the next frame only once at least 2048 bytes are pending (and as soon as they are). When data is already pending the whole acknowledgement takes exactly 2x73 cycles with speaker toggles 34 cycles after the start of each half.",
 over=["inputs", "schedules", "histories"], q="all arrival timings of network data, all receive-buffer positions, all soft-switch bytes, key pressed or not",
 why="No test covers the player; the behaviour depends on network timing and on the buffer position after arbitrarily many frames.",
 files=[M], mech=[("op_ack, checkrecv, recv", M)], tech=A + ": W5100 pointer/register model, interval refinement on the wait",
 note=TRUST + "Frame alignment of the acknowledgement is the encoder's side (X03)."),
dict(id="P06", title="Playback code never lies in memory that playback overwrites",
 statement="Everything the player executes or reads as its own data after the screen has been cleared lies outside the screen memory, and the program's segments stay within the memory free under ProDOS without overlapping.",
 over=["inputs", "programs"], q="all code reachable after the clear, all opcodes",
 why="No test covers the player; growth of one macro can silently push code across a boundary.",
 files=[M, "player/apple2-asm-hgr.cfg"], mech=[("segment assignment", M), ("MEMORY/SEGMENTS", "player/apple2-asm-hgr.cfg")], tech=A + ": fetched-address sets against the memory map",
 note=TRUST),
dict(id="P07", title="The player connects correctly, or gives up with a message",
 statement="Before opening its connection the player has programmed the network chip completely (auto-increment mode, MAC, own and peer address, 8K receive memory, TCP mode, the server's default port), it reads stream data only once the connection is established and data has arrived, and it retries a bounded number of times before stopping with a message.",
 over=["schedules", "fault_sequences"], q="all sequences of socket status and received-size values the chip may report",
 why="No test covers the player; behaviour depends on the order in which the network chip reports states.",
 files=[M, "server/server.py"], mech=[("bootstrap .. wait_read_header", M)], tech=A + ": constant propagation with an abstract W5100 register file; SCC search for unbounded retries",
 note=TRUST),
dict(id="P08", title="Playback ends, and reset exits, by quitting cleanly to ProDOS",
 statement="The terminate opcode waits for a fresh keypress, consumes it and quits to ProDOS with a valid call; and from before networking starts the reset vector points, with a matching power-up checksum, to code that invalidates the vector and makes the same quit call.",
 over=["inputs", "schedules"], q="all keyboard timings; reset at any time after startup began",
 why="No test covers the player.",
 files=[M], mech=[("op_terminate, exit, exit_parmtable", M), ("reset vector installation in bootstrap", M)], tech=A + ": keyboard event order, call parameters",
 note=TRUST),
dict(id="P09", title="A keypress pauses playback until the next one, losing nothing",
 statement="At a frame boundary a pending keypress pauses playback until another key is pressed, both keys are consumed, and playback resumes at exactly the next stream byte; without a keypress playback is not delayed.",
 over=["schedules"], q="all keyboard timings",
 why="No test covers the player.",
 files=[M], mech=[("keyboard poll in recv", M)], tech=A + ": keyboard event order on every path",
 note=TRUST),
dict(id="P10", title="The header selects the display mode and playback starts from a clean screen",
 statement="The player consumes exactly a seven-byte header whose last byte selects Hi-Res (zero) or Double Hi-Res (non-zero), clears every bank of the selected mode before displaying it, sets exactly that mode's display switches with main memory selected for writing, and starts the first opcode at the following stream bytes once a complete first frame is pending.",
 over=["inputs", "schedules"], q="all header bytes and network timings",
 why="No test covers the player.",
 files=[M], mech=[("op_header, _op_header_hgr", M)], tech=A + ": soft-switch state and stream position at the first dispatch",
 note=TRUST),
dict(id="X01", title="Opcode addresses the encoder emits are those of the built player",
 statement="For every opcode, the address in the committed player symbol file is the address at which that opcode is assembled from the player source, no two opcodes share one, and the transcoder, reading that symbol file, emits exactly that address (high byte first) as the jump target for that opcode.",
 over=["programs"], q="all opcodes",
 why="Tests never assemble the player nor compare it with the addresses the encoder emits.",
 files=[M, "player/iivision.dbg", "transcoder/opcodes.py", "transcoder/symbol_table.py"], mech=[("committed iivision.dbg", "player/iivision.dbg"), ("SymbolTable, _make_page_ops", "transcoder/opcodes.py")],
 tech="comparison of the fresh build's symbol table with the committed one, and with the constants that abstract interpretation of the transcoder's byte code emits",
 note="Trusts cc65's debug info."),
]
NOT_APPLICABLE = []
