MV="X03 X04 T01 T02 T03 T04"
F="transcoder/movie.py"
A="transcoder/audio.py"
O="transcoder/opcodes.py"
S="transcoder/symbol_table.py"
M="transcoder/machine.py"
R="server/server.py"
G="transcoder/main.py"
X="X01 X02 X03 T03"
REFACS=[
("m_target", MV, [(F,'''                    if self.video_mode == VideoMode.DHGR:
                        target_pixelmap = screen.DHGRBitmap(
                            main_memory=main,
                            aux_memory=aux,
                            palette=self.palette
                        )
                    else:
                        target_pixelmap = screen.HGRBitmap(
                            main_memory=main,
                            palette=self.palette
                        )

                    print''','''                    target_pixelmap = self._target_pixelmap(main, aux)

                    print'''),(F,'''    def _emit_bytes(self''','''    def _target_pixelmap(self, main, aux) -> screen.Bitmap:
        """Construct target bitmap for a source frame."""
        if self.video_mode != VideoMode.DHGR:
            return screen.HGRBitmap(main_memory=main, palette=self.palette)
        return screen.DHGRBitmap(
            main_memory=main, aux_memory=aux, palette=self.palette)

    def _emit_bytes(self''')]),
("m_tick", MV, [(F,'''            tick = au * 2  # -30 .. 32 (step=2)
            tick += 34  # 4 .. 66 (step=2)

            (page, content, offsets) = next(op_seq)

            yield opcodes.TICK_OPCODES[(tick, page)](content, offsets)
''','''            tick = 2 * (au + 17)

            page, content, offsets = next(op_seq)
            op_class = opcodes.TICK_OPCODES[tick, page]

            yield op_class(content, offsets)
''')]),
("m_tickstatic", MV, [(F,'''            tick = au * 2  # -30 .. 32 (step=2)
            tick += 34  # 4 .. 66 (step=2)

            (page''','''            tick = self._tick_cycles(au)

            (page'''),(F,'''    def _emit_bytes(self''','''    @staticmethod
    def _tick_cycles(au: int) -> int:
        return (au << 1) + 34

    def _emit_bytes(self''')]),
("m_every", MV, [(F,'''                should_encode_frame = (
                        (self.video.frame_number - 1) %
                        self.every_n_video_frames == 0
                )
                if should_encode_frame:''','''                frame_idx = self.video.frame_number - 1
                if not frame_idx % self.every_n_video_frames:''')]),
("m_ack", MV, [(F,'''            socket_pos = self.stream_pos % 2048
            if socket_pos >= 2044:
                # 2 op_ack address bytes + 2 payload bytes from ACK must
                # terminate 2K stream frame
                if self.video_mode == VideoMode.DHGR:
                    # Flip-flop between MAIN and AUX banks
                    self.aux_memory_bank = not self.aux_memory_bank

                yield from self._emit_bytes(opcodes.Ack(self.aux_memory_bank))
                assert self.stream_pos % 2048 == 0, self.stream_pos % 2048
''','''            if self.stream_pos & 0x7ff >= 2044:
                yield from self._emit_ack()
'''),(F,'''    def done(self)''','''    def _emit_ack(self) -> Iterator[int]:
        # 2 op_ack address bytes + 2 payload bytes from ACK must
        # terminate 2K stream frame
        if self.video_mode == VideoMode.DHGR:
            # Flip-flop between MAIN and AUX banks
            self.aux_memory_bank ^= True

        yield from self._emit_bytes(opcodes.Ack(self.aux_memory_bank))
        assert not self.stream_pos % 2048, self.stream_pos % 2048

    def done(self)''')]),
("m_max", MV, [(F,'''            if self.max_bytes_out and self.stream_pos >= self.max_bytes_out:
                yield from self.done()
                return
''','''            if self._output_full():
                break
'''),(F,'''    def done(self)''','''    def _output_full(self) -> bool:
        if not self.max_bytes_out:
            return False
        return self.stream_pos >= self.max_bytes_out

    def done(self)''')]),
("m_pad", MV, [(F,'''        for _ in range(2048 - (self.stream_pos % 2048)):
            yield 0x00''','''        padding = 2048 - self.stream_pos % 2048
        while padding > 0:
            yield 0
            padding -= 1''')]),
("m_pad2", MV, [(F,'''        for _ in range(2048 - (self.stream_pos % 2048)):
            yield 0x00''','''        yield from bytes(2048 - (self.stream_pos % 2048))''')]),
("m_pad3", MV, [(F,'''        for _ in range(2048 - (self.stream_pos % 2048)):
            yield 0x00''','''        yield from itertools.repeat(0, 2048 - (self.stream_pos % 2048))'''),(F,'''from typing import Iterable''','''import itertools
from typing import Iterable''')]),
("m_emit", MV, [(F,'''        for b in self.state.emit(_op):
            yield b
            self.stream_pos += 1
''','''        data = list(self.state.emit(_op))
        self.stream_pos += len(data)
        yield from data
''')]),
("m_forop", MV, [(F,'''        for op in ops:
            if self.max''','''        stream = iter(ops)
        while True:
            try:
                op = next(stream)
            except StopIteration:
                break
            if self.max''')]),
("m_enum", MV, [(F,'''        for au in self.audio.audio_stream():
            self.ticks += 1
            new_video_frame = self.video.tick(self.ticks)
            if new_video_frame:
                try:
                    main, aux = next(video_frames)
                except StopIteration:
                    break
''','''        for self.ticks, au in enumerate(
                self.audio.audio_stream(), self.ticks + 1):
            if self.video.tick(self.ticks):
                frame = next(video_frames, None)
                if frame is None:
                    break
                main, aux = frame
''')]),
("m_seq", MV, [(F,'''                    op_seq = self.video.encode_frame(
                        target_pixelmap, is_aux=self.aux_memory_bank)
                    self.video.out_of_work = {True: False, False: False}

            if self.aux_memory_bank != last_memory_bank:
                # We've flipped memory banks, start new opcode sequence
                last_memory_bank = self.aux_memory_bank
                op_seq = self.video.encode_frame(
                    target_pixelmap, is_aux=self.aux_memory_bank)
''','''                    self.video.out_of_work = {True: False, False: False}
                    op_seq = self._encode(target_pixelmap)

            bank_flipped = self.aux_memory_bank != last_memory_bank
            last_memory_bank = self.aux_memory_bank
            if bank_flipped:
                # We've flipped memory banks, start new opcode sequence
                op_seq = self._encode(target_pixelmap)
'''),(F,'''    def _emit_bytes(self''','''    def _encode(self, target):
        return self.video.encode_frame(target, is_aux=self.aux_memory_bank)

    def _emit_bytes(self''')]),
("a_conv", MV, [(A,'''                a /= 16384  # normalize to -1.0 .. 1.0
                a *= self.normalization

                # Convert to -16 .. 16
                a = (a * 16).astype(np.int)
                a = np.clip(a, -15, 16)

                yield from a
''','''                yield from self._quantize(a)
'''),(A,'''    def audio_stream(self)''','''    def _quantize(self, a):
        """Convert samples to -15 .. 16."""
        normalized = a / 16384 * self.normalization
        levels = (normalized * 16).astype(np.int)
        return levels.clip(-15, 16)

    def audio_stream(self)''')]),
("a_minmax", MV, [(A,'''                a = np.clip(a, -15, 16)

                yield from a
''','''                for level in np.minimum(np.maximum(a, -15), 16):
                    yield level
''')]),
("a_int64", MV, [(A,'''                a = (a * 16).astype(np.int)
                a = np.clip(a, -15, 16)
''','''                a = np.clip((a * 16).astype(np.int64), -15, 16)
''')]),
("a_loop", MV, [(A,'''            for buf in f.read_data():
                raw.extend(bytearray(buf))
                if len(raw) > read_bytes:
                    break
        a =''','''            blocks = f.read_data()
            while len(raw) <= read_bytes:
                buf = next(blocks, None)
                if buf is None:
                    break
                raw += buf
        a =''')]),
("a_norm", MV, [(A,'''        norm = np.max(np.abs(np.percentile(a, [0.5, 99.5])))
        if norm == 0:
            # Silence, there is nothing to normalize
            return 1.

        return 16384. / norm
''','''        low, high = np.percentile(a, [0.5, 99.5])
        norm = max(abs(low), abs(high))
        return 16384. / norm if norm else 1.
'''),(A,'''        self.normalization = (
                normalization or self._normalization())  # type: float
''','''        if not normalization:
            normalization = self._normalization()
        self.normalization = normalization  # type: float
''')]),
("a_decode", MV, [(A,'''        data = np.frombuffer(buf, dtype='int16').astype(
            'float32').reshape((f.channels, -1), order='F')

        a = librosa.core.to_mono(data)
        a = librosa.resample(a,''','''        samples = np.frombuffer(buf, dtype=np.int16).astype(np.float32)
        data = samples.reshape((-1, f.channels)).T

        a = librosa.resample(librosa.core.to_mono(data),''')]),
("o_cmds", X, [(O,'''    op_cmds = [
        "HEADER",
        "TERMINATE",
        "NOP",
        "ACK",
    ]
    for tick in range(4, 68, 2):
        for page in range(32, 64):
            op_cmds.append("TICK_%d_PAGE_%d" % (tick, page))
    return op_cmds
''','''    tick_cmds = [
        f"TICK_{tick}_PAGE_{page}"
        for tick in range(4, 68, 2)
        for page in range(32, 64)
    ]
    return ["HEADER", "TERMINATE", "NOP", "ACK"] + tick_cmds
''')]),
("o_data", X, [(O,'''        yield 0xff
        yield 0xff
        yield 0xff
        yield 0xff
        yield 0xff
        yield 0xff

        yield self.video_mode.value
''','''        for _ in range(6):
            yield 0xff

        yield self.video_mode.value
'''),(O,'''        yield opcode._START >> 8
        yield opcode._START & 0xff
''','''        yield from divmod(opcode._START, 256)
'''),(O,'''        yield 0x55 if self.aux_active else 0x54
''','''        yield 0x54 + int(self.aux_active)
''')]),
("o_data2", X, [(O,'''        yield opcode._START >> 8
        yield opcode._START & 0xff
''','''        yield from opcode._START.to_bytes(2, "big")
'''),(O,'''        yield self.content  # content
        yield from self.offsets
''','''        yield self.content  # content
        for offset in self.offsets:
            yield offset
''')]),
("o_syms", X, [(O,'''        if name.startswith("\\"op_"):
            op_name = name[4:-1]
            start_addr = int(data["val"], 16)

            opcode_data.setdefault(op_name, {})["start"] = start_addr

    opcode_addrs = []
    for op_name, addrs in opcode_data.items():
        for op in OpcodeCommand:
            if op.name.lower() != op_name:
                continue
            opcode_addrs.append((op, addrs["start"]))

    return sorted(opcode_addrs, key=lambda x: x[1])
''','''        if not name.startswith('"op_'):
            continue
        opcode_data[name.strip('"')[3:]] = int(data["val"], 16)

    opcode_addrs = [
        (op, opcode_data[op.name.lower()])
        for op in OpcodeCommand if op.name.lower() in opcode_data
    ]
    opcode_addrs.sort(key=lambda x: x[1])
    return opcode_addrs
''')]),
("o_rename", X, [(O,'''    # Offset of start byte of player opcode implementation
    _START = None  # type: int
''','''    # Offset of start byte of player opcode implementation
    START_ADDR = None  # type: int
'''),(O,'''        yield opcode._START >> 8
        yield opcode._START & 0xff
''','''        yield opcode.START_ADDR >> 8
        yield opcode.START_ADDR & 0xff
'''),(O,'''        cls._START = start

''','''        cls.START_ADDR = start

'''),(O,'''        if not cls._START:
''','''        if not cls.START_ADDR:
''')]),
("o_make", X, [(O,'''    tick_opcodes = {}

    for _tick in range(4, 68, 2):
        for _page in range(32, 64):
            tick_opcodes[(_tick, _page)] = type(
                "Tick%dPage%d" % (_tick, _page),
                (BaseTick,),
                {
                    "COMMAND": OpcodeCommand["TICK_%d_PAGE_%d" % (_tick, _page)]
                }
            )
    return tick_opcodes
''','''    return {
        (tick, page): _make_tick_opcode(tick, page)
        for tick in range(4, 68, 2)
        for page in range(32, 64)
    }
'''),(O,'''def _make_tick_opcodes''','''def _make_tick_opcode(tick, page):
    name = "Tick%dPage%d" % (tick, page)
    command = OpcodeCommand["TICK_%d_PAGE_%d" % (tick, page)]
    return type(name, (BaseTick,), {"COMMAND": command})


def _make_tick_opcodes''')]),
("o_machine", X, [(M,'''        cmd = opcode.emit_command(opcode)
        if cmd:
            yield from cmd
        data = opcode.emit_data()
        if data:
            yield from data
''','''        for part in (opcode.emit_command(opcode), opcode.emit_data()):
            if part is not None:
                yield from part
''')]),
("o_sym", X, [(S,'''        if not iostream:
            iostream = open(self.debugfile, "r")

        with iostream as f:
            for line in f.read().split("\\n"):
                if not line.startswith("sym"):
                    continue

                sym = {}
                data = line.split()[1].split(",")
                for kv in data:
                    k, v = kv.split("=")
                    sym[k] = v

                name = sym["name"]

                syms[name] = sym
''','''        with iostream or open(self.debugfile) as f:
            for line in f.read().splitlines():
                if line.startswith("sym"):
                    sym = self._parse_symbol(line)
                    syms[sym["name"]] = sym
'''),(S,'''    def parse(self''','''    @staticmethod
    def _parse_symbol(line: str) -> Dict:
        fields = line.split()[1]
        return dict(kv.split("=") for kv in fields.split(","))

    def parse(self''')]),
("r_serve", "R01", [(R,'''                with open(serve_file, "rb") as f:
                    data = f.read()
                    print("Sending %d bytes" % len(data))
                    self.request.sendall(data)
''','''                data = self._read_file()
                print("Sending %d bytes" % len(data))
                self.request.sendall(data)

            @staticmethod
            def _read_file():
                with open(serve_file, "rb") as f:
                    return f.read()
''')]),
("r_serve2", "R01", [(R,'''def main(args):
    serve_file = args.input

    def handler():
        class ChunkHandler(socketserver.BaseRequestHandler):
            def handle(self):
                with open(serve_file, "rb") as f:
                    data = f.read()
                    print("Sending %d bytes" % len(data))
                    self.request.sendall(data)

        return ChunkHandler

    with socketserver.TCPServer(
            ("0.0.0.0", args.port), handler(),
            bind_and_activate=False) as server:
        server.allow_reuse_address = True
''','''def make_handler(serve_file):
    class ChunkHandler(socketserver.BaseRequestHandler):
        def handle(self):
            f = open(serve_file, "rb")
            try:
                data = f.read()
            finally:
                f.close()
            print("Sending %d bytes" % len(data))
            self.request.sendall(data)

    return ChunkHandler


class Server(socketserver.TCPServer):
    allow_reuse_address = True


def main(args):
    address = ("0.0.0.0", args.port)
    with Server(
            address, make_handler(args.input),
            bind_and_activate=False) as server:
''')]),
("g_main", "T04", [(G,'''    if args.output:
        out_filename = args.output
    else:
        # Replace suffix with .a2m
        out_filename = os.path.splitext(filename)[0] + ".a2m"

    with open(out_filename, "wb") as out:
        for bytes_out, b in enumerate(m.emit_stream(m.encode())):
            out.write(bytearray([b]))
''','''    # Replace suffix with .a2m
    out_filename = args.output or os.path.splitext(filename)[0] + ".a2m"

    with open(out_filename, "wb") as out:
        for b in m.emit_stream(m.encode()):
            out.write(bytes((b,)))
''')]),
("g_main2", "T04", [(G,'''    with open(out_filename, "wb") as out:
        for bytes_out, b in enumerate(m.emit_stream(m.encode())):
            out.write(bytearray([b]))
''','''    write_stream(m, out_filename)
'''),(G,'''def main(args):
''','''def write_stream(m, out_filename):
    with open(out_filename, "wb") as out:
        stream = m.emit_stream(m.encode())
        for b in stream:
            out.write(b.to_bytes(1, "little"))


def main(args):
''')]),
]
