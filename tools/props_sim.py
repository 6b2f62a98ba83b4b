"""Properties of the player simulator and the video server."""
A = "abstract interpretation of the Python byte code"
NOTE = ("Decides the property for every value of the symbolic inputs over the "
        "program's actual byte code, assuming the modelled behaviour of the "
        "standard library and py65 (sa/py/env.py, sa/py/libs.py). ")
AP, MA, ME, UT, SI, SV = ("simulator/apple2.py", "simulator/machine.py", "simulator/memory.py",
                      "simulator/uthernet.py", "simulator/simulator.py", "server/server.py")

PROPS = [
dict(id="M01", title="Simulated soft switch status reads reflect the last access that set it",
 statement="In the simulator, after any history of accesses, reading a soft switch's status address returns bit 7 set exactly if the last access that operated this switch was to its 'set' address, as on a real Apple //e; accesses to other I/O locations (other switches, speaker, network chip) do not change it. Display switches (text, mixed, page 2, hires) react to reads and writes, the others to writes.",
 over=["histories", "inputs"], q="all twelve switches, all access histories, all values written",
 why="No test covers the simulator; addresses, modes and state of each switch interact through one shared handler table.",
 files=[AP, MA], mech=[("SoftSwitch.register/get/set/clear", MA), ("switch table in AppleII.__init__", AP)], tech=A, note=NOTE),
dict(id="M02", title="The simulated network chip is addressed as the real one in indirect mode",
 statement="In the simulator, a data port access reads or writes exactly the chip address last set through the high and low address ports (set in either order, after any earlier pointer and mode), the pointer advances by one after each data access exactly if auto-increment mode is on, plain registers keep the value written, the mode register reads back, and the socket status follows OPEN (initialised) and CONNECT (established) commands.",
 over=["histories", "inputs"], q="all pointer values, both modes, all orders of setting them, all data bytes",
 why="No test covers the simulator; the result depends on the pointer and mode left by the access history.",
 files=[AP, UT], mech=[("_uther_* closures", AP), ("read_data/write_data/io_map", UT)], tech=A, note=NOTE),
dict(id="M03", title="Simulated ROM is loaded whole and is never written; RAM is writable",
 statement="The simulator places the slot 6 and main ROM image parts completely at their addresses, loads the player where it starts it, sets the COUT vector and enables memory protection before running. From then on a store to any ROM address is refused without changing memory, and a store to RAM or screen memory changes exactly the addressed byte to the stored value.",
 over=["inputs", "programs"], q="all addresses of every memory area, all bytes stored",
 why="No test covers the simulator; a region boundary error shows only for particular addresses.",
 files=[AP, ME, SI], mech=[("memory_map", AP), ("RegisterRegion, DenyWritesToRegion", ME), ("ROM loading", SI)], tech=A, note=NOTE),
dict(id="M04", title="The simulator supervises every instruction and traps wild jumps",
 statement="The simulator's run loop shows every instruction's address, together with the previous one, to the execution supervisor before executing it, and stops only when an instruction jumps to itself. The supervisor reports control entering another memory region other than through a known entry point or a return instruction, never refuses other transfers, and runs an entry point's handler exactly when execution reaches it.",
 over=["programs", "inputs"], q="all pairs of memory areas, all addresses, all sequences of instruction addresses",
 why="No test covers the simulator; detection must work for every address pair.",
 files=[AP, ME], mech=[("MemoryManager.MaybeInterceptExecution", ME), ("AppleII.Run", AP)], tech=A, note=NOTE),
dict(id="M05", title="The simulator ignores no I/O access it does not model",
 statement="A read or write of an I/O location ($C000-$C0FF) that the simulator does not model, an access in a direction the location does not support, or an access to an unassigned network chip register raises an error instead of being silently ignored.",
 over=["inputs", "programs"], q="every address of the I/O page and the chip's register areas, reads and writes, all bytes",
 why="No test covers the simulator; it must hold for each unhandled address.",
 files=[MA, AP, UT], mech=[("Machine.io_interceptor", MA), ("io_map", UT)], tech=A, note=NOTE),
dict(id="R01", title="The server sends every client the complete file, byte for byte",
 statement="The server listens on all interfaces on the given port (with address reuse, so that it can be restarted at once) and sends every client, one after the other, the complete contents of the given file as they are, in order, each byte once, and keeps serving after a client is done.",
 over=["inputs", "histories", "schedules"], q="all file sizes and contents, all ports, any number of clients, partial sends",
 why="No test covers the server; chunked or partial sends only lose data for particular sizes and network states.",
 files=[SV], mech=[("ChunkHandler.handle, main", SV)], tech=A, note=NOTE),
]
NOT_APPLICABLE = []
