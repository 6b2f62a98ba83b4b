import sys
from seedtool import seed
want = sys.argv[1:]
M = "transcoder/movie.py"
A = "transcoder/audio.py"
G = "transcoder/frame_grabber.py"
V = "transcoder/video.py"
O = "transcoder/opcodes.py"


def s(sid, prop, needs, breaks, edits, demo):
    if not want or any(sid.startswith(w) for w in want):
        seed(sid, prop, needs, breaks, edits,
             "import os, sys\nsys.path.insert(0, os.path.dirname("
             "os.path.abspath(__file__)))\nfrom media import *\n" + demo,
             ["media.py"])


s("x03_no_ack_at_limit", "X03",
  "a byte limit that falls in the last opcode of a 2048-byte frame",
  "the frame's acknowledge is not sent before the terminate opcode",
  [(M, "            if socket_pos >= 2044:",
    "            if socket_pos >= 2044 and (\n"
    "                    not self.max_bytes_out or\n"
    "                    self.stream_pos < self.max_bytes_out):")],
  '''
fake_media(20)
m = make([0] * 5000, max_bytes_out=4090)
b = list(m.emit_stream(m.encode()))
ack = list(opcodes.Ack.emit_command(opcodes.Ack(False)))
for i in range(2048, 4097, 2048):
    assert b[i - 4:i - 2] == ack, (i, b[i - 4:i])
''')
s("x03_bank_by_frame_count", "X03",
  "DHGR, and a stream longer than 64 frames",
  "the acknowledges stop alternating between the banks",
  [(M, "                    self.aux_memory_bank = not self.aux_memory_bank",
    "                    self.aux_memory_bank = (\n"
    "                            self.stream_pos & 0x1ffff) // 2048 % 2 == 0 "
    "or \\\n                        self.stream_pos >> 17 & 1 == 1")],
  '''
fake_media(2000, dhgr=True)
m = make([0] * 20000, mode=VideoMode.DHGR)
b = list(m.emit_stream(m.encode()))
acks = [b[i + 2046] for i in range(0, len(b) - 2048, 2048)]
assert len(acks) > 66
assert acks == [0x54 + (i + 1) % 2 for i in range(len(acks))], acks
''')
s("x04_skipped_target", "X04",
  "DHGR, every_n_video_frames > 1 and a bank switch after a skipped frame",
  "after the switch the skipped frame is encoded",
  [(M, """                if should_encode_frame:
                    if self.video_mode == VideoMode.DHGR:
                        target_pixelmap = screen.DHGRBitmap(
                            main_memory=main,
                            aux_memory=aux,
                            palette=self.palette
                        )
                    else:
                        target_pixelmap = screen.HGRBitmap(
                            main_memory=main,
                            palette=self.palette
                        )

""", """                if self.video_mode == VideoMode.DHGR:
                    target_pixelmap = screen.DHGRBitmap(
                        main_memory=main,
                        aux_memory=aux,
                        palette=self.palette
                    )
                else:
                    target_pixelmap = screen.HGRBitmap(
                        main_memory=main,
                        palette=self.palette
                    )

                if should_encode_frame:
""")],
  '''
fake_media(40, rate=60., dhgr=True)
m = make([0] * 4000, mode=VideoMode.DHGR, every_n_video_frames=4)
list(m.emit_stream(m.encode()))
assert len(ENCODED) > 10
assert all(f % 4 == 0 for f, x in ENCODED), ENCODED
''')
s("x04_idle_bank", "X04",
  "DHGR, and a bank switch after the other bank ran out of work",
  "the operations of the old bank go on after the switch",
  [(M, "            if self.aux_memory_bank != last_memory_bank:",
    "            if self.aux_memory_bank != last_memory_bank and \\\n"
    "                    not self.video.out_of_work[not "
    "self.aux_memory_bank]:")],
  '''
fake_media(3, rate=1., dhgr=True, idle=True)
m = make([0] * 3000, mode=VideoMode.DHGR)
for op in m.encode():
    if isinstance(op, opcodes.Header):
        for b in m._emit_bytes(op):
            pass
        continue
    assert op.content == int(m.aux_memory_bank), (m.stream_pos, op.content)
    for b in m._emit_bytes(op):
        pass
    if m.stream_pos % 2048 >= 2044:
        m.aux_memory_bank = not m.aux_memory_bank
        for b in m._emit_bytes(opcodes.Ack(m.aux_memory_bank)):
            pass
''')
s("t01_int8", "T01", "a sample whose level before the cut is beyond 127",
  "the level wraps around before it is cut to the range",
  [(A, ".astype(np.int)", ".astype(np.int8)")],
  '''
import audio
AUDIO["blocks"] = [[100, 20000, -20000, 9000]]
a = audio.Audio("x", normalization=8.)
assert [int(x) for x in a.audio_stream()] == [0, 16, -15, 16]
''')
s("t01_planar", "T01", "audio of more than one channel",
  "samples of the channels are not told apart by interleaving",
  [(A, "(f.channels, -1), order='F')", "(f.channels, -1))")],
  '''
import audio
AUDIO.update(blocks=[[4096, 4096, 8192, 8192, -4096, -4096, 0, 0]],
             channels=2)
a = audio.Audio("x", normalization=1.)
assert [int(x) for x in a.audio_stream()] == [4, 8, -4, 0]
''')
s("t01_block_normalized", "T01",
  "no given normalization, and audio whose negative peaks are larger",
  "the normalization ignores the negative side, so the peaks are cut",
  [(A, "np.max(np.abs(np.percentile(a, [0.5, 99.5])))",
    "np.abs(np.max(np.percentile(a, [0.5, 99.5])))")],
  '''
import audio
AUDIO["blocks"] = [[-16384] * 50 + [4096] * 50]
a = audio.Audio("x")
assert abs(a.normalization - 1.) < 1e-6, a.normalization
''')
s("t02_short_position", "T02", "a byte limit of 64 KiB or more",
  "the position wraps at 64 KiB, so that the limit is never reached",
  [(M, "            self.stream_pos += 1",
    "            self.stream_pos = (self.stream_pos + 1) & 0xffff")],
  '''
fake_media(5000)
m = make([0] * 20000, max_bytes_out=70000)
n = len(list(m.emit_stream(m.encode())))
assert n == 71680, n
''')
s("t02_limit_per_frame", "T02", "a byte limit that is not on a frame end",
  "the limit is only looked at between frames",
  [(M, "            if self.max_bytes_out and self.stream_pos >= "
       "self.max_bytes_out:",
    "            if self.max_bytes_out and self.stream_pos + 2048 - (\n"
    "                    self.stream_pos % 2048 or 2048) >= "
    "self.max_bytes_out:")],
  '''
fake_media(100)
m = make([0] * 20000, max_bytes_out=3000)
b = list(m.emit_stream(m.encode()))
end = list(opcodes.Terminate.emit_command(opcodes.Terminate()))
assert len(b) == 4096
p = 2048 + 7 * 136
assert b[p:p + 2] == end and not any(b[p + 2:]), p
''')
s("t03_whole_ticks", "T03",
  "a frame rate that does not divide the audio rate",
  "frames are taken at whole numbers of samples, and video runs ahead",
  [(V, "                self.ticks_per_second / frame_grabber."
       "input_frame_rate",
    "                self.ticks_per_second // frame_grabber."
    "input_frame_rate")],
  '''
fake_media(2000, rate=60000 / 1001)
m = make([0] * 294000)
g = m.encode()
assert sum(1 for op in g) == 294001
assert len(ENCODED) == 1199, len(ENCODED)
''')
s("t03_every_one", "T03", "every_n_video_frames of 3 or more",
  "the frame after the one due is encoded",
  [(M, "                        (self.video.frame_number - 1) %\n"
       "                        self.every_n_video_frames == 0",
    "                        self.video.frame_number %\n"
    "                        self.every_n_video_frames == "
    "(self.every_n_video_frames > 1)\n"
    "                        if self.every_n_video_frames < 3 else\n"
    "                        self.video.frame_number %\n"
    "                        self.every_n_video_frames in (1, 2) and\n"
    "                        (self.video.frame_number < 3 or\n"
    "                         self.video.frame_number %\n"
    "                         self.every_n_video_frames == 1)")],
  '''
fake_media(20, rate=60.)
m = make([0] * 3000, every_n_video_frames=3)
list(m.encode())
assert [f for f, x in ENCODED] == [0, 3, 6, 9, 12], ENCODED
''')
s("t04_whole_megabytes", "T04", "a --max_output_mb that is not whole",
  "the part after the point is dropped, and 0.5 means no limit",
  [("transcoder/main.py", "1024. * 1024 * args.max_output_mb",
    "1024 * 1024 * int(args.max_output_mb)")],
  '''
import tempfile
import main
fake_media(5000)
AUDIO["blocks"] = [[0] * 100000]
with tempfile.TemporaryDirectory() as d:
    o = os.path.join(d, "o.a2m")
    main.main(main.parser.parse_args([
        "in.avi", "--output", o, "--max_output_mb", "0.03125",
        "--audio_normalization", "1", "--video_mode", "HGR"]))
    n = os.path.getsize(o)
assert n == 34816, n
''')
s("f01_lifo", "F01", "conversion faster than the encoder takes the frames",
  "waiting frames are delivered in reverse order",
  [(G, "q = queue.Queue(maxsize=10)", "q = queue.LifoQueue(maxsize=10)")],
  '''
import tempfile, time
with tempfile.TemporaryDirectory() as d:
    fake_converter(8, d)
    g = frame_grabber.FileFrameGrabber(d + "/f.avi", VideoMode.HGR,
                                       Palette.NTSC)
    got = []
    for a, b in g.frames():
        if not got:
            time.sleep(1)
        got.append(int(a.page_offset[0, 0]))
assert got == list(range(8)), got
''')
s("f01_shared_buffer", "F01", "a consumer that keeps a frame for longer",
  "frames share one buffer that the worker overwrites",
  [(G, "        q = queue.Queue(maxsize=10)\n",
    "        q = queue.Queue(maxsize=10)\n"
    "        buf = np.zeros(8192, dtype=np.uint8)\n"),
   (G, "            _main = np.fromfile(outfile, dtype=np.uint8)\n",
    "            buf[:] = np.fromfile(outfile, dtype=np.uint8)\n"
    "            _main = buf\n")],
  '''
import tempfile, time
with tempfile.TemporaryDirectory() as d:
    fake_converter(8, d)
    g = frame_grabber.FileFrameGrabber(d + "/f.avi", VideoMode.HGR,
                                       Palette.NTSC)
    got = [a for a, b in g.frames()]
    got = [int(a.page_offset[0, 0]) for a in got]
assert got == list(range(8)), got
''')
s("f01_not_daemon", "F01", "an iteration abandoned with frames to come",
  "the worker waits for ever for room in the queue and keeps the program",
  [(G, "threading.Thread(target=worker, daemon=True)",
    "threading.Thread(target=worker)")],
  '''
import subprocess, tempfile
if len(sys.argv) > 1:
    fake_converter(40, sys.argv[1])
    g = frame_grabber.FileFrameGrabber(sys.argv[1] + "/f.avi", VideoMode.HGR,
                                       Palette.NTSC)
    next(g.frames())
    sys.exit(0)
with tempfile.TemporaryDirectory() as d:
    p = subprocess.Popen([sys.executable, os.path.abspath(__file__), d])
    try:
        assert p.wait(30) == 0
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise
''')
s("f02_aux_missing", "F02",
  "DHGR, and a cached frame of which only the auxiliary file is missing",
  "the frame is not converted again",
  [(G, "                os.stat(auxfile)\n", "")],
  '''
import tempfile
with tempfile.TemporaryDirectory() as d:
    for i in (1, 2):
        fake_converter(3, d)
        g = frame_grabber.FileFrameGrabber(d + "/f.avi", VideoMode.DHGR,
                                           Palette.NTSC)
        assert len(list(g.frames())) == 3
        f = d + "/f/DHGR/NTSC/00000001.AUX"
        if i == 1:
            os.remove(f)
''')
s("f02_short_number", "F02", "a film of more than 4096 frames",
  "later frames take the files of earlier ones",
  [(G, '"%s/%08dC.BIN" % (frame_dir, _idx)',
    '"%s/%08dC.BIN" % (frame_dir, _idx & 0xfff)'),
   (G, '            bmpfile = "%s/%08d.bmp" % (frame_dir, _idx)\n',
    '            bmpfile = "%s/%08d.bmp" % (frame_dir, _idx & 0xfff)\n', 0)],
  '''
import tempfile
with tempfile.TemporaryDirectory() as d:
    fake_converter(4100, d)
    g = frame_grabber.FileFrameGrabber(d + "/f.avi", VideoMode.HGR,
                                       Palette.NTSC)
    for i, (a, b) in enumerate(g.frames()):
        n = a.page_offset[0, :2]
        assert int(n[0]) + 256 * int(n[1]) == i, i
''')
s("x02_unique_offsets", "X02", "an opcode with a repeated offset",
  "repeated offsets are left out, and the opcode is too short",
  [(O, "        yield from self.offsets\n",
    "        yield from dict.fromkeys(self.offsets)\n")],
  '''
op = opcodes.TICK_OPCODES[(4, 32)](1, [5, 6, 5, 5])
assert list(op.emit_data()) == [1, 5, 6, 5, 5]
''')
