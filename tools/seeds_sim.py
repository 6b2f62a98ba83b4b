from seedtool import seed
PRE = '''import sys, io, contextlib
sys.path.insert(0, "simulator")
import machine, memory, uthernet, apple2
def mk():
    a2 = apple2.AppleII(uthernet.Uthernet(b""))
    a2.memory_manager.enable()
    return a2
def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()
'''
A2, MA, ME, UT, SV, SI = ("simulator/apple2.py", "simulator/machine.py", "simulator/memory.py",
  "simulator/uthernet.py", "server/server.py", "simulator/simulator.py")

seed("m01_shared_hires_page2", "M01", "switch PAGE2 on, then read HIRES status after switching HIRES off",
 "HIRES status address registered at PAGE2's",
 [(A2, "status_addr=0xc01d,", "status_addr=0xc01c,")],
 PRE + '''def t():
    a = mk()
    a.memory[0xc055] = 0
    a.memory[0xc056] = 0
    assert a.memory[0xc01c] & 0x80
quiet(t)
''')
seed("m01_mixed_write_only", "M01", "operating the MIXED switch by a read",
 "MIXED reacts to writes only",
 [(A2, 'status_addr=0xc01b,\n                mode=machine.AccessMode.RW', 'status_addr=0xc01b')],
 PRE + '''def t():
    a = mk()
    try:
        a.memory[0xc053]
    except machine.TrapException:
        assert 0
    assert a.memory[0xc01b] & 0x80
quiet(t)
''')
seed("m01_class_state", "M01", "two switches operated differently, then the first one's status read",
 "switch state shared by all switches",
 [(MA, "        self.state = True\n", "        SoftSwitch.state = True\n"),
  (MA, "        self.state = False\n        Log", "        SoftSwitch.state = False\n        Log"),
  (MA, "        self.state = False  # type: bool\n", ""),
  (MA, "class SoftSwitch:\n", "class SoftSwitch:\n    state = False  # type: bool\n\n")],
 PRE + '''def t():
    a = mk()
    a.memory[0xc051] = 0
    a.memory[0xc052] = 0
    assert a.memory[0xc01a] & 0x80
quiet(t)
''')
seed("m02_wadrl_merge", "M02", "setting the low address byte after a pointer with low byte bits set",
 "low byte of the chip address is ORed into the old one",
 [(A2, "self.uthernet.ptr = (self.uthernet.ptr & 0x7f00) | value", "self.uthernet.ptr = (self.uthernet.ptr & 0x7fff) | value")],
 PRE + '''def t():
    a = mk()
    a.memory[0xc095] = 0x60
    a.memory[0xc096] = 0x55
    a.memory[0xc096] = 0xaa
    a.memory[0xc097] = 1
    assert a.uthernet.memory[0x60aa] == 1
quiet(t)
''')
seed("m02_mode_not_cleared", "M02", "auto-increment switched on and later off",
 "auto-increment mode cannot be switched off again",
 [(UT, "self._auto_increment = bool(value & (1 << 1))", "self._auto_increment |= bool(value & (1 << 1))")],
 PRE + '''def t():
    a = mk()
    a.memory[0xc094] = 3
    a.memory[0xc094] = 1
    a.memory[0xc095] = 0x60
    a.memory[0xc096] = 0x00
    a.memory[0xc097] = 1
    a.memory[0xc097] = 2
    assert a.uthernet.memory[0x6000] == 2
quiet(t)
''')
seed("m02_connect_before_open", "M02", "CONNECT command",
 "CONNECT leaves the socket in SOCK_INIT",
 [(UT, "self.memory[0x403] = 0x17", "self.memory[0x403] = max(self.memory[0x403], 0x13)")],
 PRE + '''def t():
    u = mk().uthernet
    u.memory[0x401] = 1
    u.memory[0x401] = 4
    assert u.memory[0x403] == 0x17
quiet(t)
''')
seed("m03_region_end", "M03", "a store to the last byte of a ROM region",
 "the last byte of a region is not protected",
 [(ME, "addr_range = range(region.start, region.end + 1)", "addr_range = range(region.start, region.end)")],
 PRE + '''def t():
    a = mk()
    try:
        a.memory[0xffff] = 1
    except memory.WriteProtectedException:
        return
    assert 0
quiet(t)
''')
seed("m03_late_closure", "M03", "a store to ROM while another interceptor is registered for writes",
 "protection only installed for regions without a write interceptor and with entry points",
 [(ME, "        if not region.writable:\n", "        if not region.writable and region.entrypoints:\n")],
 PRE + '''def t():
    a = mk()
    try:
        a.memory[0xc610] = 1
    except memory.WriteProtectedException:
        return
    assert 0
quiet(t)
''')
seed("m04_region_by_name", "M04", "a jump from one slot ROM into another one",
 "only the kind of region (writable or not) is compared",
 [(ME, "if self.regions[old_pc] != self.regions[pc]:", "if self.regions[old_pc].writable != self.regions[pc].writable:")],
 PRE + '''def t():
    a = mk()
    a.cpu.pc = 0xd123
    try:
        a.memory_manager.MaybeInterceptExecution(a.cpu, 0xc610)
    except memory.UndefinedEntryPointException:
        return
    assert 0
quiet(t)
''')
seed("m04_old_pc_once", "M04", "a wild jump in the third or later instruction",
 "the supervisor is not told the previous address any more after the first instruction",
 [(A2, "            old_pc = self.cpu.pc\n            if trace:", "            ctr = ctr or 0\n            if trace:"),
  (A2, "            if self.cpu.pc == old_pc:\n                break\n", "            if self.cpu.pc == old_pc:\n                break\n            old_pc = self.cpu.pc\n")],
 PRE + '''def t():
    a = mk()
    a.memory_manager.memory[0x6000] = 0xea
    a.memory_manager.memory[0x6001] = 0x4c
    a.memory_manager.memory[0x6002] = 0x34
    a.memory_manager.memory[0x6003] = 0xd1
    try:
        a.Run(0x6000)
    except memory.UndefinedEntryPointException:
        return
    assert 0
quiet(t)
''')
seed("m05_zero_write", "M05", "a write of zero to an unmodelled I/O location",
 "writes of zero to unmodelled locations are ignored",
 [(MA, "            else:\n                raise TrapException(address, 'Read')", "            elif value is None:\n                raise TrapException(address, 'Read')")],
 PRE + '''def t():
    a = mk()
    try:
        a.memory[0xc0e0] = 0
    except machine.TrapException:
        return
    assert 0
quiet(t)
''')
seed("m05_mode_mask", "M05", "a read of a write-only location",
 "wrong-direction accesses to write-only locations are ignored",
 [(MA, "                raise TrapException(address, access_mode)", "                if mode & AccessMode.READ:\n                    raise TrapException(address, access_mode)")],
 PRE + '''def t():
    a = mk()
    try:
        a.memory[0xc095]
    except machine.TrapException:
        return
    assert 0
quiet(t)
''')
SRV = '''import sys, io, os, tempfile, threading, socket, contextlib, time
sys.path.insert(0, "server")
sys.argv = ["server.py", "x"]
import server
def fetch(n, port=0, reuse=False):
    fd, p = tempfile.mkstemp()
    data = bytes((i * 7 + i // 256) & 255 for i in range(n))
    os.write(fd, data); os.close(fd)
    s = socket.socket(); s.bind(("127.0.0.1", 0)); port = s.getsockname()[1]; s.close()
    class Args: input = p
    Args.port = port
    th = threading.Thread(target=server.main, args=(Args,), daemon=True)
    out = []
    with contextlib.redirect_stdout(io.StringIO()):
        th.start()
        for k in range(2):
            for t in range(50):
                try:
                    c = socket.create_connection(("127.0.0.1", port), timeout=5)
                    break
                except OSError:
                    time.sleep(0.1)
            got = b""
            while True:
                b = c.recv(65536)
                if not b:
                    break
                got += b
            out.append(got)
    os.remove(p)
    return data, out
'''
seed("r01_read_limit", "R01", "a file of more than 16 MB", "only the first 16 MB of the file are sent",
 [(SV, "data = f.read()", "data = f.read(1 << 24)")],
 SRV + '''d, o = fetch((1 << 24) + 5)
assert o == [d, d], [len(x) for x in o]
os._exit(0)
''')
seed("r01_chunks", "R01", "a file whose size is not a multiple of 2048", "only whole 2K frames are sent",
 [(SV, "self.request.sendall(data)", "for i in range(len(data) // 2048):\n                        self.request.sendall(data[i * 2048:(i + 1) * 2048])")],
 SRV + '''d, o = fetch(5000)
assert o == [d, d], [len(x) for x in o]
os._exit(0)
''')
