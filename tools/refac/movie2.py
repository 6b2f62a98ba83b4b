MO="transcoder/movie.py"; AU="transcoder/audio.py"; OP="transcoder/opcodes.py"; SY="transcoder/symbol_table.py"; MA="transcoder/machine.py"; SV="server/server.py"
MV="X03 X04 T01 T02 T03 T04"
X="X01 X02 X03"
REFACS=[
("n_emit_ctr", MV, [(MO,'''        for b in self.state.emit(_op):
            yield b
            self.stream_pos += 1
''','''        data = bytes(self.state.emit(_op))
        for n, b in enumerate(data, 1):
            yield b
            self.stream_pos += 1
''')]),
("n_ackhelper", MV, [(MO,'''            # Keep track of where we are in TCP client socket buffer
            socket_pos = self.stream_pos % 2048
            if socket_pos >= 2044:
                # 2 op_ack address bytes + 2 payload bytes from ACK must
                # terminate 2K stream frame
                if self.video_mode == VideoMode.DHGR:
                    # Flip-flop between MAIN and AUX banks
                    self.aux_memory_bank = not self.aux_memory_bank

                yield from self._emit_bytes(opcodes.Ack(self.aux_memory_bank))
                assert self.stream_pos % 2048 == 0, self.stream_pos % 2048
''','''            if self._frame_room() <= 4:
                yield from self._ack()
'''),(MO,'''    def emit_stream(self''','''    def _frame_room(self):
        return 2048 - (self.stream_pos & 2047)

    def _ack(self):
        if self.video_mode is VideoMode.DHGR:
            self.aux_memory_bank ^= True

        yield from self._emit_bytes(opcodes.Ack(self.aux_memory_bank))

    def emit_stream(self''')]),
("n_done", MV, [(MO,'''        for _ in range(2048 - (self.stream_pos % 2048)):
            yield 0x00
''','''        pad = 2048 - self.stream_pos % 2048
        yield from bytes(pad)
''')]),
("n_limit", MV, [(MO,'''            if self.max_bytes_out and self.stream_pos >= self.max_bytes_out:
                yield from self.done()
                return
''','''            if self._full():
                break
'''),(MO,'''    def emit_stream(self''','''    def _full(self):
        if not self.max_bytes_out:
            return False
        return not self.stream_pos < self.max_bytes_out

    def emit_stream(self''')]),
("n_tickidx", MV, [(MO,'''            tick = au * 2  # -30 .. 32 (step=2)
            tick += 34  # 4 .. 66 (step=2)

            (page, content, offsets) = next(op_seq)

            yield opcodes.TICK_OPCODES[(tick, page)](content, offsets)
''','''            page, content, offsets = next(op_seq)
            cls = opcodes.TICK_OPCODES[2 * (au + 17), page]
            yield cls(content=content, offsets=offsets)
''')]),
("n_framebuild", MV, [(MO,'''                    if self.video_mode == VideoMode.DHGR:
                        target_pixelmap = screen.DHGRBitmap(
                            main_memory=main,
                            aux_memory=aux,
                            palette=self.palette
                        )
                    else:
                        target_pixelmap = screen.HGRBitmap(
                            main_memory=main,
                            palette=self.palette
                        )
''','''                    kwargs = {"main_memory": main, "palette": self.palette}
                    bitmap_cls = screen.HGRBitmap
                    if self.video_mode == VideoMode.DHGR:
                        bitmap_cls = screen.DHGRBitmap
                        kwargs["aux_memory"] = aux
                    target_pixelmap = bitmap_cls(**kwargs)
''')]),
("n_iter", MV, [(MO,'''        for au in self.audio.audio_stream():
            self.ticks += 1
            new_video_frame = self.video.tick(self.ticks)
            if new_video_frame:
                try:
                    main, aux = next(video_frames)
                except StopIteration:
                    break
''','''        done = object()
        for au in self.audio.audio_stream():
            self.ticks += 1
            if self.video.tick(self.ticks):
                frame = next(video_frames, done)
                if frame is done:
                    return
                main, aux = frame
''')]),
("n_outofwork", MV, [(MO,'''                    self.video.out_of_work = {True: False, False: False}
''','''                    self.video.out_of_work = dict.fromkeys(
                        (True, False), False)
''')]),
("n_audio_pipe", "T01", [(AU,'''                a /= 16384  # normalize to -1.0 .. 1.0
                a *= self.normalization

                # Convert to -16 .. 16
                a = (a * 16).astype(np.int)
                a = np.clip(a, -15, 16)

                yield from a
''','''                yield from self._quantise(a)

    def _quantise(self, a):
        levels = np.trunc(a / 16384 * self.normalization * 16).astype(np.int64)
        return levels.clip(-15, 16)
''')]),
("n_audio_item", "T01", [(AU,'''                a = np.clip(a, -15, 16)

                yield from a
''','''                for level in a:
                    yield max(-15, min(16, int(level)))
''')]),
("n_audio_norm", "T01", [(AU,'''        norm = np.max(np.abs(np.percentile(a, [0.5, 99.5])))
        if norm == 0:
            # Silence, there is nothing to normalize
            return 1.

        return 16384. / norm
''','''        lo, hi = np.percentile(a, [0.5, 99.5])
        peak = max(abs(lo), abs(hi))
        return 16384. / peak if peak else 1.
''')]),
("n_audio_read", "T01", [(AU,'''        raw = bytearray()
        with audioread.audio_open(self.filename) as f:
            for buf in f.read_data():
                raw.extend(bytearray(buf))
                if len(raw) > read_bytes:
                    break
        a = self._decode(f, raw)
''','''        raw = b""
        with audioread.audio_open(self.filename) as f:
            blocks = f.read_data()
            while len(raw) <= read_bytes:
                buf = next(blocks, None)
                if buf is None:
                    break
                raw += buf
            a = self._decode(f, raw)
''')]),
("n_sym", X, [(SY,'''            for line in f.read().split("\\n"):
                if not line.startswith("sym"):
                    continue

                sym = {}
                data = line.split()[1].split(",")
                for kv in data:
                    k, v = kv.split("=")
                    sym[k] = v

                name = sym["name"]

                syms[name] = sym
''','''            for line in f:
                if line.startswith("sym"):
                    _, data = line.split(None, 1)
                    sym = dict(
                        kv.split("=") for kv in data.strip().split(","))
                    syms[sym["name"]] = sym
''')]),
("n_fill", X, [(OP,'''    opcode_data = {}
    for name, data in symbol_table.SymbolTable(
            "player/iivision.dbg").parse().items():
        if name.startswith("\\"op_"):
            op_name = name[4:-1]
            start_addr = int(data["val"], 16)

            opcode_data.setdefault(op_name, {})["start"] = start_addr

    opcode_addrs = []
    for op_name, addrs in opcode_data.items():
        for op in OpcodeCommand:
            if op.name.lower() != op_name:
                continue
            opcode_addrs.append((op, addrs["start"]))

    return sorted(opcode_addrs, key=lambda x: x[1])
''','''    by_name = {op.name.lower(): op for op in OpcodeCommand}
    syms = symbol_table.SymbolTable("player/iivision.dbg").parse()
    opcode_addrs = []
    for name, data in syms.items():
        name = name.strip('"')
        op = by_name.get(name[3:]) if name[:3] == "op_" else None
        if op is not None:
            opcode_addrs.append((op, int(data["val"], base=16)))
    opcode_addrs.sort(key=lambda x: x[1])
    return opcode_addrs
''')]),
("n_struct", X, [(OP,'''        yield opcode._START >> 8
        yield opcode._START & 0xff
''','''        yield from divmod(opcode._START, 256)
'''),(OP,'''        yield 0xff
        yield 0xff
        yield 0xff
        yield 0xff
        yield 0xff
        yield 0xff

''','''        yield from [0xff] * 6
'''),(OP,'''        yield self.content  # content
        yield from self.offsets
''','''        return iter((self.content, *self.offsets))
''')]),
("n_machine", X, [(MA,'''        cmd = opcode.emit_command(opcode)
        if cmd:
            yield from cmd
        data = opcode.emit_data()
        if data:
            yield from data
''','''        for part in (opcode.emit_command(opcode), opcode.emit_data()):
            yield from part or ()
''')]),
("n_srv", "R01", [(SV,'''    def handler():
        class ChunkHandler(socketserver.BaseRequestHandler):
            def handle(self):
                with open(serve_file, "rb") as f:
                    data = f.read()
                    print("Sending %d bytes" % len(data))
                    self.request.sendall(data)

        return ChunkHandler

''','''    class FileHandler(socketserver.StreamRequestHandler):
        def handle(self):
            with open(serve_file, "rb") as f:
                while True:
                    chunk = f.read(65536)
                    if not chunk:
                        break
                    self.wfile.write(chunk)

'''),(SV,"handler(),","FileHandler,")]),
("n_srv2", "R01", [(SV,'''    with socketserver.TCPServer(
            ("0.0.0.0", args.port), handler(),
            bind_and_activate=False) as server:
        server.allow_reuse_address = True
        server.server_bind()
        server.server_activate()
        server.serve_forever()
''','''    class Server(socketserver.TCPServer):
        allow_reuse_address = True

    with Server(("0.0.0.0", args.port), handler()) as server:
        server.serve_forever()
''')]),
]
