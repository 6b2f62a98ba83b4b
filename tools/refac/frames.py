F="transcoder/frame_grabber.py"
A="simulator/apple2.py"
M="simulator/machine.py"
E="simulator/memory.py"
U="simulator/uthernet.py"
FS="F01 F02 T04"
MS="M01 M02 M03 M04 M05"
REFACS=[
("f_dir", FS, [(F,'''        return "%s/%s/%s" % (
            os.path.splitext(filename)[0],
            video_mode.name,
            palette.name)
''','''        basename, _ = os.path.splitext(filename)
        return os.path.join(basename, video_mode.name, palette.name)
''')]),
("f_exists", FS, [(F,'''            try:
                os.stat(outfile)
            except FileNotFoundError:
                _frame =''','''            if not os.path.exists(outfile):
                _frame =''')]),
("f_helper", FS, [(F,'''            try:
                os.stat(outfile)
            except FileNotFoundError:
                _frame = _frame.resize((280, 192), resample=Image.LANCZOS)
                _frame.save(bmpfile)

                subprocess.call([
                    "/usr/local/bin/bmp2dhr", bmpfile, "hgr",
                    self._palette_arg(),
                    "D9"  # Buckels dither
                ])

                os.remove(bmpfile)
''','''            try:
                os.stat(outfile)
            except FileNotFoundError:
                _convert(_frame, bmpfile, "hgr")
'''),(F,'''            try:
                os.stat(mainfile)
                os.stat(auxfile)
            except FileNotFoundError:
                _frame = _frame.resize((280, 192), resample=Image.LANCZOS)
                _frame.save(bmpfile)

                subprocess.call([
                    "/usr/local/bin/bmp2dhr", bmpfile, "dhgr",  # "v",
                    self._palette_arg(),
                    "A",  # Output separate .BIN and .AUX files
                    "D9"  # Buckels dither
                ])

                os.remove(bmpfile)
''','''            try:
                os.stat(mainfile)
                os.stat(auxfile)
            except FileNotFoundError:
                # "A": Output separate .BIN and .AUX files
                _convert(_frame, bmpfile, "dhgr", "A")
'''),(F,'''        def _hgr_decode(_idx''','''        def _convert(frame, bmpfile, mode, *args):
            frame = frame.resize((280, 192), resample=Image.LANCZOS)
            frame.save(bmpfile)

            command = ["/usr/local/bin/bmp2dhr", bmpfile, mode,
                       self._palette_arg()]
            command.extend(args)
            command.append("D9")  # Buckels dither
            subprocess.call(command)

            os.remove(bmpfile)

        def _hgr_decode(_idx''')]),
("f_run", FS, [(F,'''                subprocess.call([
                    "/usr/local/bin/bmp2dhr", bmpfile, "hgr",
                    self._palette_arg(),
                    "D9"  # Buckels dither
                ])
''','''                subprocess.run([
                    "/usr/local/bin/bmp2dhr", bmpfile, "hgr",
                    self._palette_arg(),
                    "D9"  # Buckels dither
                ])
''')]),
("f_consumer", FS, [(F,'''        while True:
            main, aux = q.get()
            if main is None:
                break

            main_map = screen.FlatMemoryMap(
                screen_page=1, data=main).to_memory_map()
            if aux is None:
                aux_map = None
            else:
                aux_map = screen.FlatMemoryMap(
                    screen_page=1, data=aux).to_memory_map()
            yield (main_map, aux_map)
            q.task_done()
''','''        def _memory_map(data):
            if data is None:
                return None
            return screen.FlatMemoryMap(
                screen_page=1, data=data).to_memory_map()

        main, aux = q.get()
        while main is not None:
            yield _memory_map(main), _memory_map(aux)
            q.task_done()
            main, aux = q.get()
''')]),
("f_format", FS, [(F,'''            outfile = "%s/%08dC.BIN" % (frame_dir, _idx)
            bmpfile = "%s/%08d.bmp" % (frame_dir, _idx)

            try:''','''            prefix = f"{frame_dir}/{_idx:08d}"
            outfile = prefix + "C.BIN"
            bmpfile = prefix + ".bmp"

            try:'''),(F,'''            mainfile = "%s/%08d.BIN" % (frame_dir, _idx)
            auxfile = "%s/%08d.AUX" % (frame_dir, _idx)

            bmpfile = "%s/%08d.bmp" % (frame_dir, _idx)
''','''            mainfile, auxfile, bmpfile = (
                "{}/{:08d}.{}".format(frame_dir, _idx, ext)
                for ext in ("BIN", "AUX", "bmp"))
''')]),
("f_worker", FS, [(F,'''            decode = (
                _dhgr_decode if self.video_mode == VideoMode.DHGR else
                _hgr_decode
            )
            try:
                for _idx, _frame in enumerate(self._frame_grabber()):
                    q.put(decode(_idx, _frame))
''','''            if self.video_mode == VideoMode.DHGR:
                decode = _dhgr_decode
            else:
                decode = _hgr_decode
            try:
                _idx = 0
                for _frame in self._frame_grabber():
                    decoded = decode(_idx, _frame)
                    q.put(decoded)
                    _idx += 1
''')]),
("f_worker2", FS, [(F,'''            except Exception as e:
                # Have the consumer raise it instead of waiting forever
                q.put((None, e))
                return

            q.put((None, None))
''','''            except Exception as e:
                # Have the consumer raise it instead of waiting forever
                q.put((None, e))
            else:
                q.put((None, None))
''')]),
("f_method", FS, [(F,'''        t = threading.Thread(target=worker, daemon=True)
        t.start()
''','''        t = threading.Thread(target=worker)
        t.daemon = True
        t.start()
'''),(F,'''        rate_data = data['@r_frame_rate'].split("/")  # e.g. 12000/1001
        self.input_frame_rate = float(
            rate_data[0]) / float(rate_data[1])  # type: float
''','''        num, den = data['@r_frame_rate'].split("/")  # e.g. 12000/1001
        self.input_frame_rate = float(num) / float(den)  # type: float
''')]),
("f_rate", FS, [(F,'''        rate_data = data['@r_frame_rate'].split("/")  # e.g. 12000/1001
        self.input_frame_rate = float(
            rate_data[0]) / float(rate_data[1])  # type: float
''','''        num, den = map(float, data['@r_frame_rate'].split("/"))
        self.input_frame_rate = num / den  # type: float
''')]),
("q_io", MS, [(M,'''        access_mode = (
            AccessMode.READ if (value is None) else AccessMode.WRITE)

        try:
            (mode, name, callback) = self.io_map[address]

            if access_mode & mode:
                if access_mode & AccessMode.READ:
                    print("==== IO EVENT: READ %s" % name)
                else:
                    print("==== IO EVENT: WRITE %s -> %02x" % (name, value))
                if callback:
                    return callback(access_mode, value)
                else:
                    return
            else:
                print("**** IO EVENT with unexpected mode: %s" % access_mode)
                raise TrapException(address, access_mode)
        except KeyError:
            if value:
                raise TrapException(
                    address, 'Wrote %02X ("%s")' % (value, chr(value)))
            else:
                raise TrapException(address, 'Read')
''','''        if value is None:
            access_mode = AccessMode.READ
        else:
            access_mode = AccessMode.WRITE

        if address not in self.io_map:
            if value:
                raise TrapException(
                    address, 'Wrote %02X ("%s")' % (value, chr(value)))
            raise TrapException(address, 'Read')

        mode, name, callback = self.io_map[address]
        if not access_mode & mode:
            print("**** IO EVENT with unexpected mode: %s" % access_mode)
            raise TrapException(address, access_mode)

        if access_mode == AccessMode.READ:
            print("==== IO EVENT: READ %s" % name)
        else:
            print("==== IO EVENT: WRITE %s -> %02x" % (name, value))
        if callback:
            return callback(access_mode, value)
''')]),
("q_ss", MS, [(M,'''    def set(self) -> Optional[int]:
        self.state = True
        Log(self.name, "Setting soft switch")
        if self.callback:
            return self.callback(True)

    def clear(self) -> Optional[int]:
        self.state = False
        Log(self.name, "Clearing soft switch")
        if self.callback:
            return self.callback(False)
''','''    def _change(self, state: bool) -> Optional[int]:
        self.state = state
        Log(self.name, "%s soft switch" % ("Setting" if state else "Clearing"))
        if self.callback is not None:
            return self.callback(state)
        return None

    def set(self) -> Optional[int]:
        return self._change(True)

    def clear(self) -> Optional[int]:
        return self._change(False)
'''),(M,'''        def _clear(mode, value):
            return self.clear()

        def _set(mode, value):
            return self.set()

        def _get(mode, value):
            return self.get()

        io_map[self.clear_addr] = (
            self.mode, "%s OFF" % self.name, _clear)
        io_map[self.set_addr] = (
            self.mode, "%s ON" % self.name, _set)
        io_map[self.status_addr] = (
            AccessMode.READ, "%s READ" % self.name, _get)
''','''        io_map.update({
            self.clear_addr: (
                self.mode, "%s OFF" % self.name, lambda m, v: self.clear()),
            self.set_addr: (
                self.mode, "%s ON" % self.name, lambda m, v: self.set()),
            self.status_addr: (
                AccessMode.READ, "%s READ" % self.name,
                lambda m, v: self.get()),
        })
''')]),
("q_mem", MS, [(E,'''        addr_range = range(region.start, region.end + 1)

        if region.read''','''        addr_range = list(range(region.start, region.end + 1))

        if region.read'''),(E,'''        for addr in addr_range:
            self.regions[addr] = region

        for addr, handler in region.entrypoints.items():
            self.entrypoints[addr].append(handler)
''','''        self.regions.update(dict.fromkeys(addr_range, region))

        for addr in region.entrypoints:
            self.entrypoints[addr].append(region.entrypoints[addr])
'''),(E,'''        pc = cpu.pc
        if pc in self.entrypoints:
            handlers = self.entrypoints[pc]
        else:
            handlers = []

        if self.regions[old_pc] != self.regions[pc]:
            print("Entering region %s" % self.regions[pc].name)
            # Don't worry if last instruction was RTS
            if self.memory[old_pc] != 0x60 and not handlers:
                raise UndefinedEntryPointException(self.regions[pc], old_pc, pc)
''','''        pc = cpu.pc
        handlers = self.entrypoints.get(pc, [])

        old_region, region = self.regions[old_pc], self.regions[pc]
        if old_region is not region:
            print("Entering region %s" % region.name)
            # Don't worry if last instruction was RTS
            was_rts = self.memory[old_pc] == 0x60
            if not (was_rts or handlers):
                raise UndefinedEntryPointException(region, old_pc, pc)
''')]),
("q_mem2", MS, [(E,'''        default_region = MemoryRegion('default', 0x0, 0xffff)

        def _default_region():
            return default_region

        self.regions = defaultdict(_default_region)
''','''        default_region = MemoryRegion('default', 0x0, 0xffff)
        self.regions = defaultdict(lambda: default_region)
'''),(E,'''        if not region.writable:
            self.memory.subscribe_to_write(
                addr_range, self.DenyWritesToRegion(region))
''','''        if not region.writable:
            deny = self.DenyWritesToRegion(region)
            self.memory.subscribe_to_write(addr_range, deny)
''')]),
("q_uth", MS, [(U,'''            self._indirect_bus_mode = bool(value & 1)
            self._auto_increment = bool(value & (1 << 1))
''','''            self._auto_increment = value & 0b10 != 0
            self._indirect_bus_mode = value & 0b1 != 0
'''),(U,'''            commands = {
                0x01: _OPEN,
                # 0x02: _LISTEN,
                0x04: _CONNECT,
                # 0x08: _DISCON,
                # 0x10: _CLOSE,
                # 0x20: _SEND,
                # 0x21: _SEND_MAC,
                # 0x22: _SEND_KEEP,
                0x40: _RECV,
            }
            handler = commands.get(value)
            if handler:
                handler()
''','''            if value == 0x01:
                _OPEN()
            elif value == 0x04:
                _CONNECT()
            elif value == 0x40:
                _RECV()
'''),(U,'''        val = self.memory[self.ptr]
        self._advance_ptr()
        return val
''','''        addr = self.ptr
        val = self.memory[addr]
        self._advance_ptr()
        return val
'''),(U,'''        if self._auto_increment:
            self.ptr = (self.ptr + 1) & 0x7fff
''','''        if not self._auto_increment:
            return
        self.ptr = (self.ptr + 1) % 0x8000
''')]),
("q_uth2", MS, [(U,'''            0x000f: (
                machine.AccessMode.RW, "Source IP Address 0", None),
            0x0010: (
                machine.AccessMode.RW, "Source IP Address 1", None),
            0x0011: (
                machine.AccessMode.RW, "Source IP Address 2", None),
            0x0012: (
                machine.AccessMode.RW, "Source IP Address 3", None),
''',''),(U,'''    def read_data(self):''','''        for i in range(4):
            self.io_map[0x000f + i] = (
                machine.AccessMode.RW, "Source IP Address %d" % i, None)

    def read_data(self):''')]),
("q_a2", MS, [(A,'''        def _uther_wadrh(mode, value):
            old = self.uthernet.ptr
            self.uthernet.ptr = ((value & 0x7f) << 8) | (
                    self.uthernet.ptr & 0xff)
            machine.Log("WADRH", "%04x -> %04x" % (old, self.uthernet.ptr))

        def _uther_wadrl(mode, value):
            old = self.uthernet.ptr
            self.uthernet.ptr = (self.uthernet.ptr & 0x7f00) | value
            machine.Log("WADRL", "%04x -> %04x" % (old, self.uthernet.ptr))
''','''        def _set_ptr(name, ptr):
            machine.Log(name, "%04x -> %04x" % (self.uthernet.ptr, ptr))
            self.uthernet.ptr = ptr

        def _uther_wadrh(mode, value):
            low = self.uthernet.ptr % 256
            _set_ptr("WADRH", 256 * (value % 128) + low)

        def _uther_wadrl(mode, value):
            _set_ptr("WADRL", (self.uthernet.ptr & ~0xff) + value)
'''),(A,'''            if mode & machine.AccessMode.READ:
                return self.uthernet.read_data()
            else:
                return self.uthernet.write_data(value)
''','''            if mode == machine.AccessMode.WRITE:
                return self.uthernet.write_data(value)
            return self.uthernet.read_data()
''')]),
("q_a2run", MS, [(A,'''        ctr = 0
        self.cpu.pc = pc
        old_pc = self.cpu.pc
        while True:
            self.memory_manager.MaybeInterceptExecution(self.cpu, old_pc)
            old_pc = self.cpu.pc
            if trace:
                cpu = str(self.cpu).split("\\n")
                if ctr % 20 == 0:
                    print(cpu[0])
                print(cpu[1], "  $%04X: %-12s  %d" % (
                    self.cpu.pc,
                    self.disassembler.instruction_at(self.cpu.pc)[1],
                    self.cpu.processorCycles
                ))
            self.cpu.step()
            if self.cpu.pc == old_pc:
                break
            ctr += 1
''','''        self.cpu.pc = old_pc = pc
        for ctr in itertools.count():
            self.memory_manager.MaybeInterceptExecution(self.cpu, old_pc)
            old_pc = self.cpu.pc
            if trace:
                self._trace(ctr)
            self.cpu.step()
            if self.cpu.pc == old_pc:
                return

    def _trace(self, ctr):
        header, registers = str(self.cpu).split("\\n")[:2]
        if ctr % 20 == 0:
            print(header)
        print(registers, "  $%04X: %-12s  %d" % (
            self.cpu.pc,
            self.disassembler.instruction_at(self.cpu.pc)[1],
            self.cpu.processorCycles
        ))
'''),(A,'''import machine
import memory
import uthernet
''','''import itertools

import machine
import memory
import uthernet
''')]),
("q_a2roms", MS, [(A,'''            memory.MemoryRegion("Slot 1 ROM", 0xc100, 0xc1ff, writable=False),
            memory.MemoryRegion("Slot 2 ROM", 0xc200, 0xc2ff, writable=False),
            memory.MemoryRegion("Slot 3 ROM", 0xc300, 0xc3ff, writable=False),
            memory.MemoryRegion("Slot 4 ROM", 0xc400, 0xc4ff, writable=False),
            memory.MemoryRegion("Slot 5 ROM", 0xc500, 0xc5ff, writable=False),
            memory.MemoryRegion("Slot 6 ROM", 0xc600, 0xc6ff, writable=False),
            memory.MemoryRegion("Slot 7 ROM", 0xc700, 0xc7ff, writable=False),
''','''            *[memory.MemoryRegion(
                "Slot %d ROM" % slot, 0xc000 + (slot << 8),
                0xc0ff + (slot << 8), writable=False)
              for slot in range(1, 8)],
'''),(A,'''            self.soft_switches[ss.name] = ss
            ss.register(self.io_map)
''','''            ss.register(self.io_map)
            self.soft_switches[ss.name] = ss
''')]),
]
