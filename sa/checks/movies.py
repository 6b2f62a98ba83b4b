"""Movie: framing, bank steering, pacing, termination."""

from .common import finish
from .media import movie_analysis

PRE = '''
import movie, video, video_mode, palette, opcodes, __media__

def address(name):
    return ADDR[name] >> 8, ADDR[name] & 255

names = ["header", "terminate", "nop", "ack"] + [
    "tick_%d_page_%d" % (t, g) for t in range(4, 67, 2)
    for g in range(32, 64)]
ADDR = {n: 0x8003 + 9 * i for i, n in enumerate(names)}

def make(mode, limit=None):
    return movie.Movie("in.avi", audio_normalization=1.0, max_bytes_out=limit,
                       video_mode=video_mode.VideoMode[mode],
                       palette=palette.Palette.NTSC)

def tick(i):
    t, g = 4 + 2 * (i % 32), 32 + i // 32 % 32
    c = __any_int__("content", 0, 255)
    o = [__any_int__("offset", 0, 255) for _ in range(4)]
    return (opcodes.TICK_OPCODES[(t, g)](c, o),
            address("tick_%d_page_%d" % (t, g)) + (c,) + tuple(o))

def counts():
    """does stream_pos count the bytes of the whole stream?"""
    m = make("HGR")
    g = m.emit_stream([tick(i)[0] for i in range(300)])
    for i in range(2076):
        next(g)
    return getattr(m, "stream_pos", None) == 2075

def start(mode, limit=None, where=2):
    """a movie at the start, or after any number of 2 KB frames"""
    m = make(mode, limit)
    base = 0
    odd = 0
    if GENERAL and (where == 1 or where == 2 and __choose__(2)):
        odd = __choose__(2)
        base = 4096 * __any_int__("frames", 0, None) + 2048 * odd
        m.stream_pos = base
        m.aux_memory_bank = bool(odd) and mode == "DHGR"
    return m, base, odd

GENERAL = counts()
'''
MODE = '''
mode = ["HGR", "DHGR"][__choose__(2)]
'''

X03_MAIN = PRE + MODE + '''
limit = __any_int__("limit", 1, None) if __choose__(2) else None
m, base, odd = start(mode, limit)
want = []
N = 2 * 292

def ops():
    for i in range(N):
        op, e = tick(i)
        want.extend(e)
        yield op

g = m.emit_stream(ops())
for frame in range(2):
    bank = mode == "DHGR" and (frame + odd) % 2 == 0
    for pos in range(2048):
        if pos < 2044 and pos % 7 == 0 and limit is not None and \
                base + 2048 * frame + pos >= limit:
            # the stream may end here
            __stop__()
        b = next(g)
        if pos < 2044:
            __check__(len(want) > 0, "an opcode per seven bytes",
                      "a byte that belongs to no opcode")
            __check__(b == want.pop(0), "opcodes unaltered and in order",
                      "byte %d of a frame is not that of the opcode" % pos)
        elif pos < 2046:
            __check__(b == address("ack")[pos - 2044],
                      "acknowledge ends the frame",
                      "byte %d of a frame is not the acknowledge's" % pos)
        elif pos == 2046:
            __check__(b == (0x55 if bank else 0x54),
                      "bank of the acknowledge " + mode,
                      "the bank selected after frame %d is wrong" % frame)
        else:
            __check__(0 <= b <= 255, "fill byte", "not a byte")
    __check__(len(want) == 0, "no opcode crosses a frame end",
              "an opcode is cut by the end of a frame")
'''

T02_MAIN = PRE + MODE + '''
why = __choose__(2)
if why:
    limit = __any_int__("limit", 1, None)
else:
    limit = [None, 0, 0.0][__choose__(3)]
m, base, odd = start(mode, limit, int(why and mode == "DHGR"))
want = []
LONG = 292 + 3
count = [0]
ended = [False]

def ops():
    for i in range(LONG if not why or mode == "DHGR" and odd == 0 else 20):
        if not why and i in (0, 1, 150, 291, 292, 293) and __choose__(2):
            break
        op, e = tick(i)
        want.extend(e)
        count[0] += 1
        yield op
    else:
        __stop__()
    ended[0] = True

pos = 0
g = m.emit_stream(ops())
stopped = False
while True:
    at = base + pos
    if pos % 2048 < 2044:
        if pos % 2048 % 7 == 0:
            b = next(g)
            if why:
                stopped = at >= limit
            else:
                stopped = ended[0]
            if stopped:
                break
            __check__(count[0] == pos // 2048 * 292 + pos % 2048 // 7 + 1,
                      "one opcode at a time", "")
        else:
            b = next(g)
        __check__(len(want) > 0, "opcodes up to the end",
                  "the stream stops before its end")
        __check__(b == want.pop(0), "opcodes up to the end",
                  "the stream stops before its end")
    else:
        b = next(g)
    pos += 1
__check__(b == address("terminate")[0], "terminate follows the last opcode",
          "the end is not marked by the terminate opcode")
b = next(g)
__check__(b == address("terminate")[1], "terminate follows the last opcode",
          "the end is not marked by the terminate opcode")
pos += 2
n = 0
for b in g:
    n += 1
    __check__(b == 0, "zero padding", "padding is not zero")
__check__(n > 0 or pos % 2048 == 0, "padded", "the last frame is not padded")
__check__((pos + n) % 2048 == 0, "whole frames",
          "the stream is not a whole number of 2 KB frames")
__check__(n <= 2048, "not more than one frame of padding", "")
'''


def X03(rep, tier):
    rep.explanation = (
        "Abstract interpretation of Movie.emit_stream from the start and "
        "from any 2 KB frame boundary, with opcodes of unknown content and "
        "with or without a length limit: two frames, byte by byte, against "
        "the player's framing.")
    a = movie_analysis()
    finish(rep, a, X03_MAIN, 6)


def T02(rep, tier):
    rep.explanation = (
        "Abstract interpretation of Movie.emit_stream with an unknown limit "
        "and opcodes ending anywhere in a frame: the bytes after the last "
        "opcode.")
    a = movie_analysis()
    finish(rep, a, T02_MAIN, 7)


ENC = PRE + '''
mode = ["HGR", "DHGR"][MODES]
import audio, screen, frame_grabber

class Mark:
    def __init__(self, frame, aux):
        self.frame = frame
        self.aux = aux

S = {"t": 0, "fn": 0, "au": 0, "shown": None, "end": False, "seq": None,
     "n": 0}

class Bmp:
    def __init__(self, palette=None, main_memory=None, aux_memory=None):
        self.main_memory = main_memory
        self.aux_memory = aux_memory

class Frame:
    def __init__(self, k, aux):
        self.k = k
        self.aux = aux

def frames(self):
    while True:
        if __choose__(2):
            S["end"] = True
            return
        k = S["fn"]
        S["fn"] = k + 1
        yield Frame(k, False), (Frame(k, True) if mode == "DHGR" else None)

def samples(self):
    while True:
        if __choose__(2):
            S["end"] = True
            return
        S["t"] += 1
        S["au"] = __any_int__("au", -15, 16)
        yield S["au"]

def encode_frame(self, target, is_aux=False):
    f = target.aux_memory if is_aux else target.main_memory
    __check__(f.aux == bool(is_aux), "bitmap of the frame's memories",
              "the target bitmap's main and auxiliary memory are exchanged")
    __check__(target.main_memory.k == f.k, "bitmap of one frame", "")
    n = 0
    while True:
        yield 40, Mark(f.k, bool(is_aux)), [n, n, n, n]
        n += 1

every = EVERY
rate, bitrate, per_frame = [("30/1", 14700, 490.0),
                            ("24000/1000", 22500, 937.5)][RATES]
__media__.CFG["rate"] = rate
m = movie.Movie("in.avi", audio_normalization=1.0, audio_bitrate=bitrate,
                every_n_video_frames=every,
                video_mode=video_mode.VideoMode[mode],
                palette=palette.Palette.NTSC)
screen.DHGRBitmap = screen.HGRBitmap = Bmp
audio.Audio.audio_stream = samples
frame_grabber.FileFrameGrabber.frames = frames
video.Video.encode_frame = encode_frame
g = m.encode()
h = next(g)
__check__(isinstance(h, opcodes.Header) and
          h.video_mode == video_mode.VideoMode[mode], "header first",
          "the first opcode is not the mode's header")
BANK = mode == "DHGR" and getattr(m, "aux_memory_bank", None) is False
while True:
    if BANK and __choose__(2):
        m.aux_memory_bank = not m.aux_memory_bank
    fn0 = S["fn"]
    t0 = S["t"]
    try:
        op = next(g)
    except StopIteration:
        __check__(S["end"], "ends with its inputs",
                  "the encoder ends before audio and video have ended")
        __stop__()
    __check__(not S["end"], "ends with its inputs",
              "the encoder goes on after the end of audio or video")
    t, au = S["t"], S["au"]
    __check__(t == t0 + 1, "an opcode per audio sample",
              "not one opcode per audio sample")
    due = t >= per_frame * fn0
    __check__((S["fn"] == fn0 + 1) == due, "frame due",
              "a video frame is taken early or late")
    __check__(S["fn"] - fn0 <= 1, "one frame at a time", "frame skipped")
    if due and fn0 % every == 0:
        S["shown"] = fn0
    __check__(op.content.frame == S["shown"], "newest encoded frame is shown",
              "an opcode is of a frame other than the newest one to encode")
    __check__(op.content.aux == (BANK and m.aux_memory_bank), "bank " + mode,
              "an opcode is of a memory bank other than the selected one")
    __check__(isinstance(op, opcodes.TICK_OPCODES[(2 * au + 34, 40)]),
              "opcode of the sample and page",
              "the opcode is not that of the sample and page")
    __check__(len(op.offsets) == 4, "offsets", "")
    S["shown"] = op.content.frame
'''


# the whole encoder with its byte stream, for three 2 KB frames
CHAIN = PRE + """
import audio, screen, frame_grabber, numpy
mode = ["HGR", "DHGR"][__choose__(2)]
every = 1 + __choose__(2)
__media__.CFG["rate"] = "150/1"
PER = 14700.0 / 150.0
N = 3 * 292 + 10
T = {"t": 0}

class Bmp:
    def __init__(self, palette=None, main_memory=None, aux_memory=None):
        self.main_memory = main_memory
        self.aux_memory = aux_memory

def frames(self):
    k = 0
    while True:
        yield 2 * k, 2 * k + 1
        k += 1

def samples(self):
    for i in range(N):
        T["t"] = i + 1
        yield i * 7 % 32 - 15

def encode_frame(self, target, is_aux=False):
    n = 0
    while True:
        yield (32 + n % 32,
               target.aux_memory if is_aux else target.main_memory,
               [n // 256, n % 256, 9, 9])
        n += 1

m = movie.Movie("in.avi", audio_normalization=1.0,
                every_n_video_frames=every,
                video_mode=video_mode.VideoMode[mode],
                palette=palette.Palette.NTSC)
screen.DHGRBitmap = screen.HGRBitmap = Bmp
audio.Audio.audio_stream = samples
frame_grabber.FileFrameGrabber.frames = frames
video.Video.encode_frame = encode_frame
g = m.emit_stream(m.encode())
for i in range(7):
    b = next(g)
__check__(b == (1 if mode == "DHGR" else 0), "header mode", "")
bank = 0
last = None
fn = 0
pos = 7
shown = None
for t in range(1, N + 1):
    e = [next(g) for _ in range(7)]
    pos += 7
    if t >= PER * fn:
        if fn % every == 0:
            shown = fn
        fn += 1
    au = (t - 1) * 7 % 32 - 15
    n = e[3] * 256 + e[4]
    __check__(tuple(e[:2]) == address("tick_%d_page_%d" % (
        2 * au + 34, 32 + n % 32)), "opcode of the sample and page",
        "the opcode is not that of the sample and the page of the store")
    __check__(e[2] % 2 == bank, "bank selected when the store is made",
              "a store is encoded for a bank other than the one selected")
    __check__(e[2] // 2 == shown, "newest encoded frame is shown",
              "an opcode is of a frame other than the newest one to encode")
    if last is None or last[0] != e[2]:
        __check__(n == 0, "every change emitted once, in order",
                  "the first change of an encoding is not emitted")
    else:
        __check__(n in (last[1] + 1, 0), "every change emitted once, "
                  "in order", "a change is lost or repeated")
    last = (e[2], n)
    if pos % 2048 == 2044:
        e = [next(g) for _ in range(4)]
        pos += 4
        __check__(tuple(e[:2]) == address("ack"), "acknowledge", "")
        bank = e[2] - 0x54
        if mode == "HGR":
            __check__(bank == 0, "always the main bank in HGR", "")
        else:
            __check__(bank == pos // 2048 % 2, "the banks alternate", "")
"""



def X04(rep, tier):
    rep.explanation = (
        "Abstract interpretation of Movie.encode in DHGR mode, to a fixpoint "
        "over all sequences of samples, frames and bank switches: bank and "
        "frame of the encoding every opcode is taken from.")
    a = movie_analysis()
    finish(rep, a, CHAIN, 8)
    finish(rep, a, ENC.replace("EVERY", "2").replace("MODES", "1")
           .replace("RATES", "0"), 19)


def T03(rep, tier):
    rep.explanation = (
        "Abstract interpretation of Movie.encode in HGR mode, to a fixpoint "
        "over all sequences of samples and frames and any frame interval: "
        "the sample at which each video frame is taken, and the frame shown.")
    a = movie_analysis()
    finish(rep, a, ENC.replace("EVERY", '__any_int__("every", 1, None)')
           .replace("MODES", "0").replace("RATES", "__choose__(2)"), 11)


AUDIO = """
import audio, __media__, numpy as np
C = __media__.CFG
out = []
blocks = []

def block(i):
    b = bytes([7 * i + k & 255 for k in range(CH * 2 * 5)])
    blocks.append(b)
    return b

mono = []

def to_mono(y):
    b = blocks[len(mono)] if STREAM[0] else b"".join(blocks)
    __check__(y.shape == (CH, len(b) // 2 // CH), "channels separated",
              "audio channels are not de-interleaved")
    for c in range(CH):
        for k in range(len(b) // 2 // CH):
            v = b[2 * (k * CH + c)] + 256 * b[2 * (k * CH + c) + 1]
            if v >= 32768:
                v -= 65536
            __check__(float(y[c, k]) == float(v), "16-bit samples",
                      "sample %d of channel %d is misread" % (k, c))
    mono.append(y)
    return y[0]

def resample(y):
    r = []
    for i in range(3):
        r.append(__any_float__("s", -65536.0, 65536.0))
    a = np.array(r, dtype="float32")
    if STREAM[0]:
        out.extend(r)
    else:
        whole.append(a)
    return a

whole = []
STREAM = [False]
CH = 1 + __choose__(3)
C["channels"] = CH
C["samplerate"] = __any_int__("rate", 1000, 200000)
C["blocks"] = [0, 1]
C["data"] = block
C["mono"] = to_mono
C["resample"] = resample
bitrate = __any_int__("bitrate", 1, 100000)
override = __any_bool__()
name = __any_str__("name")
if override:
    norm = __any_float__("norm", 0.01, 1000.0)
    A = audio.Audio(name, bitrate=bitrate, normalization=norm)
else:
    A = audio.Audio(name, bitrate=bitrate)
    p = np.max(np.abs(np.percentile(whole[0], [0.5, 99.5])))
    __assume__(p > 1.0)
    norm = 16384.0 / p
    __check__(len(mono) == 1, "analysed once", "")
del blocks[:]
del mono[:]
STREAM[0] = True
g = A.audio_stream()
aus = [next(g) for _ in range(6)]
more = True
try:
    next(g)
except StopIteration:
    more = False
__check__(not more, "as many samples as the resampled audio has", "")
for i in range(6):
    v = int(out[i] * norm / 1024)
    w = max(-15, min(16, v))
    __check__(-15 <= aus[i] and aus[i] <= 16, "range",
              "a sample is outside the range of the opcodes")
    __check__(aus[i] == w, "scaled by the multiplier, cut to the range",
              "a sample is not the normalised one times 16, cut to -15..16")
for p in C["opened"]:
    __check__(p == name, "the given file", "another file is read")
for o, t in C["resampled"]:
    __check__(o == C["samplerate"] and t == bitrate, "rates",
              "the audio is resampled between other rates")
"""

SILENT = """
import audio, __media__, numpy as np
C = __media__.CFG
C["blocks"] = [[0.0] * 5, [-900.0, 0.0, 1200.0]]
C["samplerate"] = 44100
first = [True]

def resample(y):
    b = C["blocks"][0]
    if first[0]:
        first[0] = False
        return np.array([0.0] * 8, dtype="float32")
    b = C["blocks"].pop(0)
    return np.array(b, dtype="float32")

C["data"] = lambda i: bytes([0, 0] * 4)
C["resample"] = resample
A = audio.Audio("in.avi")
C["blocks"] = [[0.0] * 5, [-2048.0, 0.0, 3072.0, 0.0]]
g = A.audio_stream()
a = [int(next(g)) for _ in range(9)]
for i in (0, 1, 2, 3, 4, 6, 8):
    __check__(a[i] == 0, "silence",
              "silence is not encoded as the middle of the range")
__check__(a[5] < 0 and a[7] > 0, "sound after silence",
          "samples after a silent start are not in proportion")
"""


def T01(rep, tier):
    rep.explanation = (
        "Abstract interpretation of audio.py on unknown samples and "
        "multipliers: every value emitted against the scaled, truncated and "
        "clipped sample; de-interleaving; rates; the silent case.")
    a = movie_analysis()
    finish(rep, a, AUDIO, 7)
    finish(rep, a, SILENT, 9)


# main.py as a program, with the real movie, audio, video and frame grabber
CLI = """
import sys, __fs__, __proc__, __media__, numpy as np
import screen, video, video_mode, palette, opcodes

def address(name):
    return ADDR[name] >> 8, ADDR[name] & 255

names = ["header", "terminate", "nop", "ack"] + [
    "tick_%d_page_%d" % (t, g) for t in range(4, 67, 2)
    for g in range(32, 64)]
ADDR = {n: 0x8003 + 9 * i for i, n in enumerate(names)}
BACK = {v: k for k, v in ADDR.items()}

PALETTES = []

def zero(cls, p):
    PALETTES.append(p)
    return np.zeros((cls._DISTANCES if hasattr(cls, "_DISTANCES") else 4,
                     1 << (2 * int(cls.MASKED_BITS))), dtype=np.uint16)

screen.Bitmap.edit_distances = classmethod(zero)

def encode_frame(self, target, is_aux=False):
    target.diff_weights(self.pixelmap, is_aux)
    m = target.aux_memory if is_aux else target.main_memory
    while True:
        yield 32, m.page_offset[0, 0], [0, 0, 0, 0]

video.Video.encode_frame = encode_frame

C = __media__.CFG
C["rate"] = "3000/1"
C["frames"] = 25
C["blocks"] = [0]
C["data"] = lambda i: bytes([0, 16] * 40)
C["samplerate"] = 44100
wave = [1024.0, 2048.0, -4096.0, 8192.0, -1024.0, -8192.0]
C["resample"] = lambda y: np.array([wave[i % 6] for i in range(SAMPLES)],
                                   dtype="float32")
BITS = {"NTSC": "P5", "IIGS": "P0"}
VALUE = {}

def content(mode, pal, frame, kind):
    v = frame + (32 if kind == "aux" else 0) + (64 if pal == "P0" else 0)
    VALUE[mode, pal, frame, kind] = v
    return np.full(8192, v, dtype=np.uint8)

__proc__.content = content

def run(*args):
    sys.argv = ["transcoder/main.py"] + list(args)
    import __script__

def expect(out, mode, pal, every, norm, bitrate, limit, n):
    '''compare the file written with the stream the options ask for'''
    __check__(list(__fs__.WRITTEN) == [out], "output file",
              "the output is written to %r" % (list(__fs__.WRITTEN),))
    b = __fs__.WRITTEN[out]
    __check__([p == INPUT for p in C["opened"]] ==
              [True] * len(C["opened"]), "input file",
              "another file is read")
    __check__([t for o, t in C["resampled"] if t != bitrate] == [],
              "audio bitrate", "the audio is resampled to another rate")
    __check__([p for p in PALETTES if p != palette.Palette[pal]] == [],
              "palette of the distances", "the encoder's distances are those "
              "of another palette")
    __check__(b[6] == (1 if mode == "DHGR" else 0), "video mode",
              "the stream is for another video mode")
    per = bitrate / 3000.0
    pos = 7
    frame = 0
    shown = 0
    aux = False
    t = 0
    for i in range(n):
        t += 1
        if t >= per * frame:
            if frame % every == 0:
                shown = frame
            frame += 1
        if frame > C["frames"] or limit and pos >= limit:
            break
        v = int(wave[i % 6] * norm / 1024)
        v = 2 * max(-15, min(16, v)) + 34
        a = b[pos] * 256 + b[pos + 1]
        __check__(BACK.get(a) == "tick_%d_page_32" % v,
                  "samples normalised as asked",
                  "opcode %d is %s, for a sample of %d cycles" % (
                  i, BACK.get(a), v))
        w = VALUE.get((mode.lower(), BITS[pal], shown,
                       "aux" if aux else "main"))
        __check__(b[pos + 2] == w, "frames encoded as asked",
                  "opcode %d stores %d, not %s (frame %d)" % (
                  i, b[pos + 2], w, shown))
        pos += 7
        if pos % 2048 == 2044:
            aux = mode == "DHGR" and not aux
            pos += 4
    __check__(tuple(b[pos:pos + 2]) == address("terminate"),
              "length limited as asked", "the stream does not end where "
              "the limit or the input does")
    __check__(len(b) == (pos + 2 + 2047) // 2048 * 2048, "padded", "")
"""

CLI_DEFAULT = CLI + """
INPUT = ["/films/clip.avi", "clip", "../a.b/clip"][__choose__(3)]
SAMPLES = 30
run(INPUT)
p = 8192.0
expect({"/films/clip.avi": "/films/clip.a2m", "clip": "clip.a2m",
        "../a.b/clip": "../a.b/clip.a2m"}[INPUT],
       "DHGR", "NTSC", 2, 16384.0 / p, 14700, None, SAMPLES)
"""

CLI_OPTIONS = CLI + """
INPUT = "clip.avi"
SAMPLES = 30
mode = ["HGR", "DHGR"][__choose__(2)]
pal = ["NTSC", "IIGS"][__choose__(2)]
out = ["x.bin", "/tmp/y"][__choose__(2)]
every, norm, rate = [(1, 1.0, 9000), (3, 3.5, 22500)][__choose__(2)]
o = [["--output", out], ["--audio_normalization", str(norm)],
     ["--audio_bitrate", str(rate)], ["--every_n_video_frames", str(every)],
     ["--video_mode", mode], ["--palette", pal], ["--max_output_mb", "1"]]
a = []
for x in o:
    a += x
run(INPUT, *a)
expect(out, mode, pal, every, norm, rate, 1048576, SAMPLES)
"""

CLI_LIMIT = CLI + """
INPUT = "clip.avi"
SAMPLES = 400
C["rate"] = "30/1"
mb, limit = [("0.001", 1048.576), ("0.001953125", 2048),
             ("0.00196", 2055.20896), ("0", None)][__choose__(4)]
run(INPUT, "--max_output_mb", mb, "--output", "o")
b = __fs__.WRITTEN["o"]
ops = (len(b) - 7) // 7
n = 0
pos = 7
while n < SAMPLES and not (limit and pos >= limit):
    n += 1
    pos += 7
    if pos % 2048 == 2044:
        pos += 4
__check__(tuple(b[pos:pos + 2]) == address("terminate"),
          "limit in megabytes", "with --max_output_mb %s the stream does not "
          "end after %d bytes" % (mb, pos))
"""

CLI_INVALID = CLI + """
INPUT = "clip.avi"
SAMPLES = 30
bad = [["--video_mode", "LORES"], ["--palette", "EGA"], ["--nonsense", "1"],
       ["--video_mode", "VideoMode.HGR"], ["--audio_bitrate", "fast"]]
ok = False
try:
    run(INPUT, *bad[__choose__(5)])
except SystemExit:
    ok = True
__check__(ok and not __fs__.WRITTEN, "invalid options refused",
          "an invalid option is not refused")
"""


def T04(rep, tier):
    from .frames import FS, PROC
    rep.explanation = (
        "Constant propagation through main.py run as a program, with the "
        "whole transcoder behind it on modelled media, file system and "
        "bmp2dhr: the file written for each option.")
    a = movie_analysis({"__fs__": FS, "__proc__": PROC}, script="main",
                       base="import movie, video, palette, screen, "
                       "frame_grabber, audio, video_mode, __media__, "
                       "__proc__, __fs__\n")
    finish(rep, a, CLI_DEFAULT, 9)
    finish(rep, a, CLI_OPTIONS, 18)
    finish(rep, a, CLI_LIMIT, 19)
    finish(rep, a, CLI_INVALID, 20)
