"""Runs the freshly assembled player on a 6502 (py65) with a small model of
the Apple II around it: W5100 in indirect mode, keyboard, speaker, soft
switches, stubs for the ROM and ProDOS calls.  Used by demo programs only."""
import os, re, shutil, subprocess, sys, tempfile
from py65.devices.mpu6502 import MPU


def assemble(repo="/repo"):
    tmp = tempfile.mkdtemp(prefix="demo_player_")
    try:
        d = os.path.join(tmp, "player")
        shutil.copytree(os.path.join(repo, "player"), d)
        for n in os.listdir(d):
            if n.endswith((".o", ".lst", ".dsk", ".map")) or n in ("iivision", "iivision.dbg"):
                os.remove(os.path.join(d, n))
        r = subprocess.run(["make", "iivision", "CC65_BIN=/usr/bin", "CC65_HOME=/usr/share/cc65"],
                           cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        dbg = open(os.path.join(d, "iivision.dbg")).read()
        img = open(os.path.join(d, "iivision"), "rb").read()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    mem = bytearray(65536)
    syms = {}
    for line in dbg.splitlines():
        k, _, rest = line.partition("\t")
        f = {m.group(1): m.group(2).strip('"') for m in re.finditer(r'(\w+)=("[^"]*"|[^,]*)', rest)}
        if k == "seg" and "ooffs" in f and f["name"] != "EXEHDR":
            s, n, o = int(f["start"], 0), int(f["size"], 0), int(f["ooffs"])
            mem[s:s + n] = img[o:o + n]
        elif k == "sym" and f.get("type") == "lab" and "val" in f:
            syms[f["name"]] = int(f["val"], 0)
    return mem, syms


class Stop(Exception):
    pass


class Bus:
    def __init__(self, sim):
        self.s = sim

    def __getitem__(self, a):
        if isinstance(a, slice):
            return self.s.ram[a]
        return self.s.rd(a)

    def __setitem__(self, a, v):
        self.s.wr(a, v & 255)

    def __len__(self):
        return 65536


class Sim:
    def __init__(self, repo="/repo"):
        self.ram, self.syms = assemble(repo)
        self.chip = bytearray(65536)
        self.mode = 0
        self.ptr = 0
        self.ticks = []
        self.switches = []          # (address, cycle) of $C0xx accesses other than W5100
        self.key = 0
        self.kbd_hook = None
        self.cmds = []
        self.stores = []
        self.cleared = []
        self.cout = 0
        self.aux = False
        self.rx_hook = None         # returns RXRSR as int
        self.sr_hook = None
        self.quit = None
        self.cpu = MPU(memory=Bus(self))
        self.log_stores = False
        self.ram[0xF3F2] = self.ram[0xF3E2] = self.ram[0xFDED] = 0x60
        self.ram[0xBF00] = 0x60

    # network chip, receive memory wraps at 8K
    def adv(self):
        if self.mode & 2:
            self.ptr = 0x6000 if self.ptr == 0x7fff else (self.ptr + 1) & 0xffff

    def rd(self, a):
        if a >> 8 == 0xC0:
            if a == 0xC094: return self.mode
            if a == 0xC095: return self.ptr >> 8
            if a == 0xC096: return self.ptr & 255
            if a == 0xC097:
                v = self.chip[self.ptr]
                if self.ptr in (0x426, 0x427) and self.rx_hook:
                    n = self.rx_hook()
                    v = n >> 8 if self.ptr == 0x426 else n & 255
                if self.ptr == 0x403 and self.sr_hook:
                    v = self.sr_hook()
                self.adv()
                return v
            return self.sw(a)
        return self.ram[a]

    def sw(self, a):
        if a == 0xC030:
            self.ticks.append(self.cpu.processorCycles)
        else:
            self.switches.append((a, self.cpu.processorCycles))
        if a == 0xC000:
            if self.kbd_hook:
                self.kbd_hook()
            return self.key
        if a == 0xC010:
            v = self.key
            self.key &= 0x7f
            return v
        if a == 0xC055: self.aux = True
        if a == 0xC054: self.aux = False
        return 0

    def wr(self, a, v):
        if a >> 8 == 0xC0:
            if a == 0xC094: self.mode = v
            elif a == 0xC095: self.ptr = (v << 8) | (self.ptr & 255)
            elif a == 0xC096: self.ptr = (self.ptr & 0xff00) | v
            elif a == 0xC097:
                self.chip[self.ptr] = v
                if self.ptr == 0x401:
                    self.cmds.append((v, self.cpu.processorCycles))
                self.adv()
            else: self.sw(a)
            return
        if self.log_stores:
            self.stores.append((a, v))
        self.ram[a] = v

    def stream(self, data, at=0x6000):
        for i, b in enumerate(data):
            self.chip[0x6000 + ((at - 0x6000 + i) & 0x1fff)] = b

    def step(self):
        pc = self.cpu.pc
        if pc in (0xF3F2, 0xF3E2):
            z = self.ram[0xE6]
            self.cleared.append((self.aux, z))
            for i in range(z << 8, (z << 8) + 0x2000):
                self.ram[i] = 0
            self.ram[0xE6] = z
        if pc == 0xFDED:
            self.cout += 1
        if pc == 0xBF00:
            sp = self.cpu.sp
            ra = self.ram[0x100 + ((sp + 1) & 255)] | self.ram[0x100 + ((sp + 2) & 255)] << 8
            self.quit = bytes(self.ram[ra + 1:ra + 4])
            raise Stop
        self.cpu.step()
        # py65 does not count the cost of page crossing on stores; store
        # instructions have fixed costs, so the count is right.

    def run(self, start, until=(), limit=200000):
        self.cpu.pc = start
        n = 0
        while True:
            self.step()
            n += 1
            if self.cpu.pc in until:
                return self.cpu.pc
            if n > limit:
                raise RuntimeError("did not get there; pc=$%04X" % self.cpu.pc)

    def playing(self):
        """State as the decode loop expects it, at the start of a frame."""
        self.mode = 3
        self.ptr = 0x6000
        c = self.cpu
        c.x = 0; c.y = 0x60; c.a = 0; c.sp = 0xff
        c.p = 0x24 | 1
