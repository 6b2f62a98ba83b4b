"""The frame grabber: decoding thread, conversion and its cache."""

from .common import finish
from .media import movie_analysis

FS = '''
FILES = {}
DIRS = set()
WRITTEN = {}

class Stat:
    def __init__(self, n):
        self.st_size = n
        self.st_mtime = self.st_ctime = 0.0

class F:
    def __init__(self, p, mode):
        self.p = p
        self.mode = mode
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return False
    def close(self):
        pass
    def flush(self):
        pass
    def read(self, n=-1):
        if self.p.endswith("iivision.dbg"):
            return __event__("file", self.p)
        return FILES[self.p].tobytes()
    def readlines(self):
        return [x + "\\n" for x in self.read().split("\\n")]
    def __iter__(self):
        return iter(self.readlines())
    def write(self, b):
        __check__("b" in self.mode, "output opened as binary",
                  "the output file is not opened in binary mode")
        WRITTEN[self.p].extend(b)
        return len(b)

def open(p, mode="r", *a, **k):
    if "w" in mode:
        WRITTEN[p] = []
    elif "r" in mode:
        if not p.endswith("iivision.dbg") and p not in FILES:
            raise FileNotFoundError(p)
    else:
        __check__(False, "output starts anew",
                  "the output file is opened with mode %s" % mode)
    return F(p, mode)

def stat(p):
    if p in FILES:
        return Stat(len(FILES[p]) if not hasattr(FILES[p], "src") else 1)
    if p in DIRS:
        return Stat(0)
    raise FileNotFoundError(p)

def makedirs(p, exist_ok):
    if p in DIRS and not exist_ok:
        raise FileExistsError(p)
    DIRS.add(p)

def remove(p):
    if p not in FILES:
        raise FileNotFoundError(p)
    del FILES[p]

def rename(a, b):
    if a not in FILES:
        raise FileNotFoundError(a)
    FILES[b] = FILES[a]
    del FILES[a]

def listdir(p):
    return [f[len(p) + 1:] for f in FILES if f.startswith(p + "/")]

def write_image(p, img):
    if p.rpartition("/")[0] not in DIRS:
        raise FileNotFoundError(p)
    FILES[p] = img

def fromfile(p, dtype=float, count=-1, sep="", offset=0):
    import numpy as np
    if p not in FILES:
        raise FileNotFoundError(p)
    __check__(np.dtype(dtype) == np.dtype("uint8"), "files are bytes",
              "the converted frames are not read as bytes")
    a = FILES[p].copy()
    return a[offset:] if count < 0 else a[offset:offset + count]
'''

PROC = '''
import __fs__, numpy
RUNS = []
OUT = {}
FAIL = [None]

def content(mode, palette, frame, kind):
    k = (mode, palette, frame, kind)
    if k not in OUT:
        OUT[k] = __array__("out", (8192,), "uint8")
    return OUT[k]

def run(args):
    """bmp2dhr"""
    __check__(not isinstance(args, str) and
              args[0].endswith("bmp2dhr"), "converted by bmp2dhr",
              "another program is run")
    bmp = args[1]
    mode = args[2]
    opts = list(args[3:])
    __check__(bmp in __fs__.FILES and hasattr(__fs__.FILES[bmp], "src"),
              "bmp2dhr gets the frame's bitmap",
              "bmp2dhr is run on a file that is not there")
    img = __fs__.FILES[bmp]
    __check__(img.size is not None and tuple(img.size) == (280, 192),
              "frame resized to 280x192", "the bitmap has another size")
    k = int(img.src[0, 0, 0])
    __check__(img.src.shape == (4, 4, 3) and mode in ("hgr", "dhgr") and
              "D9" in opts and len(opts) == len(set(opts)),
              "bmp2dhr's arguments", "wrong arguments for bmp2dhr")
    pal = [o for o in opts if o[:1] == "P"]
    __check__(len(pal) == 1, "bmp2dhr's palette",
              "no palette argument for bmp2dhr")
    rest = sorted([o for o in opts if o[:1] != "P"])
    __check__(rest == (["A", "D9"] if mode == "dhgr" else ["D9"]),
              "bmp2dhr's arguments", "wrong options for bmp2dhr")
    RUNS.append((bmp, mode, pal[0], k))
    if FAIL[0] is not None and FAIL[0] == k:
        return 1
    base = bmp[:-4]
    if mode == "dhgr":
        __fs__.FILES[base + ".BIN"] = content(mode, pal[0], k, "main")
        __fs__.FILES[base + ".AUX"] = content(mode, pal[0], k, "aux")
    else:
        __fs__.FILES[base + "C.BIN"] = content(mode, pal[0], k, "main")
    return 0
'''

PRE = '''
import frame_grabber, video_mode, palette, screen, threading
import __media__, __proc__, __fs__

def grabber(name, mode, pal):
    return frame_grabber.FileFrameGrabber(
        name, mode=video_mode.VideoMode[mode], palette=palette.Palette[pal])

PAL = {"NTSC": "P5", "IIGS": "P0"}

def same(m, mode, pal, k, kind):
    """is m the memory map of the converted frame?"""
    want = __proc__.OUT.get((mode.lower(), PAL[pal], k, kind))
    __check__(want is not None, "the frame converted for mode and palette",
              "frame %d was not converted for %s with palette %s" % (
              k, mode, pal))
    __check__(isinstance(m, screen.MemoryMap) and m.screen_page == 1,
              "memory map of page 1", "")
    __check__(m.page_offset.shape == (32, 256), "memory map of page 1", "")
    for p, o in ((0, 0), (0, 255), (1, 0), (17, 120), (31, 247), (31, 255)):
        __check__(m.page_offset[p, o] == want[256 * p + o],
                  "every byte of the converted frame",
                  "a frame does not have the bytes of its converted file")
    p = __any_int__("page", 0, 31)
    o = __any_int__("offset", 0, 255)
    __check__(m.page_offset[p, o] == want[256 * p + o],
              "every byte of the converted frame",
              "a frame does not have the bytes of its converted file")

def pair(x, mode, pal, k):
    __check__(isinstance(x, tuple) and len(x) == 2, "main and aux", "")
    same(x[0], mode, pal, k, "main")
    if mode == "DHGR":
        __check__(x[1] is not None, "auxiliary memory in DHGR mode",
                  "a DHGR frame has no auxiliary memory")
        same(x[1], mode, pal, k, "aux")
    else:
        __check__(x[1] is None, "no auxiliary memory in HGR mode", "")
'''

FILM = '''
def film(name, mode, pal):
    xs = list(grabber(name, mode, pal).frames())
    __check__(len(xs) == 2, "every frame", "")
    [pair(xs[i], mode, pal, i) for i in (0, 1)]
'''

F01_ORDER = PRE + '''
mode = ["HGR", "DHGR"][__choose__(2)]
N = [0, 1, 2, 12][__choose__(4)]
__media__.CFG["frames"] = N
g = grabber("/films/x.avi", mode, "NTSC").frames()
n = 0
for x in g:
    __check__(n < N, "one pair per frame", "more frames than the video has")
    pair(x, mode, "NTSC", n)
    n += 1
__check__(n == N, "one pair per frame", "frames of the video are lost")
'''

F01_ABANDON = PRE + '''
mode = ["HGR", "DHGR"][__choose__(2)]
__media__.CFG["frames"] = 25
g = grabber("/films/x.avi", mode, "NTSC").frames()
for i in range(1 + __choose__(2)):
    pair(next(g), mode, "NTSC", i)
# the movie's length is limited: the rest is not asked for
__check__(all([t is threading.main_thread() or t.daemon
               for t in threading.BLOCKED]),
          "an abandoned thread does not keep the program alive",
          "a thread that is not a daemon waits for a consumer")
'''

F01_FAIL = PRE + '''
mode = ["HGR", "DHGR"][__choose__(2)]
N = [1, 2, 12][__choose__(3)]
F = [0, 1, 11][__choose__(3)]
__assume__(F < N)
__media__.CFG["frames"] = N
real = __media__.frames
def frames(filename):
    for k, f in enumerate(real(filename)):
        if k == F:
            raise ValueError("damaged video")
        yield f
if __choose__(2):
    __media__.frames = frames
else:
    __proc__.FAIL[0] = F
g = grabber("/films/x.avi", mode, "NTSC").frames()
n = 0
failed = False
while True:
    try:
        x = next(g)
    except StopIteration:
        break
    except Exception:
        failed = True
        break
    __check__(n < F, "no frames beyond a failure",
              "the frames after a failed one are used in its place")
    pair(x, mode, "NTSC", n)
    n += 1
    if n > F:
        break
__check__(failed, "a failure is reported",
          "a frame that cannot be decoded ends the video silently")
__check__(n == F, "frames before a failure", "")
'''

F02_MAIN = PRE + FILM + '''
mode = ["HGR", "DHGR"][__choose__(2)]
pal = ["NTSC", "IIGS"][__choose__(2)]
name = ["/films/x.y.avi", "/my.films/x", "../x"][__choose__(3)]
__media__.CFG["frames"] = 2
R = __proc__.RUNS

def twice(what):
    film(name, mode, pal)
    __check__(len(R) == 2, "converted once, then cached",
              "%d conversions of two frames in %d runs" % (len(R), what + 1))
    left = [f for f in __fs__.FILES if hasattr(__fs__.FILES[f], "src")]
    __check__(not left, "bitmaps removed", "bitmaps are left behind")

# the second time from the cache
twice(0)
twice(1)
__check__([r[1:] for r in R] == [(mode.lower(), PAL[pal], i)
                                 for i in (0, 1)], "mode and palette",
          "bmp2dhr gets the wrong mode, palette or frame")
files = sorted(__fs__.FILES)
__check__(len(files) == (4 if mode == "DHGR" else 2), "converted frames kept",
          "the cache does not have the converted frames")
what = __choose__(4)
if what == 0:
    # a damaged cache: one file missing
    k = __choose__(len(files))
    del __fs__.FILES[files[k]]
    film(name, mode, pal)
    __check__(len(R) == 3 or len(R) == 4, "missing conversions are redone",
              "a frame with a missing file is not converted")
else:
    m2, p2, n2 = mode, pal, name
    if what == 1:
        m2 = "DHGR" if mode == "HGR" else "HGR"
    elif what == 2:
        p2 = "IIGS" if pal == "NTSC" else "NTSC"
    else:
        n2 = ["/films/x.z.avi", "/my.films/y", "./x"][
            ["/films/x.y.avi", "/my.films/x", "../x"].index(name)]
    film(n2, m2, p2)
    __check__(len(R) == 4, "no cache shared between modes, palettes or films",
              "another mode's, palette's or film's conversions are used")
'''


# a long film: every frame has its own files
F02_LONG = PRE + '''
N = FRAMES
__media__.CFG["frames"] = N
n = 0
for x in grabber("/films/x.avi", "HGR", "NTSC").frames():
    n += 1
__check__(n == N, "every frame of a long film", "")
__check__(len(__proc__.RUNS) == N, "frames do not share files",
          "%d conversions of %d different frames" % (len(__proc__.RUNS), N))
'''


def analysis():
    return movie_analysis({"__fs__": FS, "__proc__": PROC},
                          base="import frame_grabber, screen, palette, "
                          "video_mode, threading, __media__, __proc__, "
                          "__fs__\n")


def F01(rep, tier):
    rep.explanation = (
        "Abstract interpretation of FileFrameGrabber.frames with any "
        "converted frames and both extreme schedules of its thread: pairs "
        "yielded, failures, abandonment.")
    a = analysis()
    finish(rep, a, F01_ORDER, 7)
    finish(rep, a, F01_ABANDON, 13)
    finish(rep, a, F01_FAIL, 20)


def F02(rep, tier):
    rep.explanation = (
        "Abstract interpretation of FileFrameGrabber.frames on a modelled "
        "file system and bmp2dhr: arguments, reuse and separation of cached "
        "conversions.")
    a = analysis()
    finish(rep, a, F02_MAIN, 17)
    finish(rep, a, F02_LONG.replace("FRAMES", "4500" if tier == "quick"
                                    else "40000"), 2)
