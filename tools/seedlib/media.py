"""Stand-ins for the media libraries; nothing outside a scratch directory is
written."""
import itertools, os, sys, tempfile, types
import numpy as np

sys.path.insert(0, os.path.join(os.getcwd(), "transcoder"))
if not hasattr(np, "int"):
    np.int = int
AUDIO = dict(blocks=[], channels=1, rate=14700)


class _File:
    channels = property(lambda s: AUDIO["channels"])
    samplerate = property(lambda s: AUDIO["rate"])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def read_data(self, n=0):
        for b in AUDIO["blocks"]:
            yield np.array(b, dtype="<i2").tobytes()


_a = types.ModuleType("audioread")
_a.audio_open = lambda p: _File()
_l = types.ModuleType("librosa")
_l.core = types.SimpleNamespace(to_mono=lambda d: d.mean(axis=0))
_l.resample = lambda a, **k: a
sys.modules["audioread"] = _a
sys.modules["librosa"] = _l

import screen, video, frame_grabber, movie, opcodes
from palette import Palette
from video_mode import VideoMode

FRAMES = []     # (main, aux) pairs of MemoryMap
RATE = [30.]
ENCODED = []    # (target, is_aux)


class Grabber:
    def __init__(self, filename, mode=None, palette=None):
        self.input_frame_rate = RATE[0]

    def frames(self):
        return iter(FRAMES)


def memory(value):
    return screen.MemoryMap(1, np.full((32, 256), value, dtype=np.uint8))


def fake_media(n_frames, rate=30., dhgr=False, idle=False):
    """a film of n_frames frames, of which number i has all bytes i"""
    FRAMES[:] = [(memory(i % 128), memory(i % 128) if dhgr else None)
                 for i in range(n_frames)]
    RATE[0] = rate
    frame_grabber.FileFrameGrabber = Grabber

    def encode_frame(self, target, is_aux):
        n = len(ENCODED)
        ENCODED.append((int(target.main_memory.page_offset[0, 0]), is_aux))

        def ops():
            for i in itertools.count():
                if idle and i == 3:
                    self.out_of_work[is_aux] = True
                # content and offsets identify the encoding and the bank
                yield 32, int(is_aux), [n % 256, ENCODED[n][0], i % 256, 7]
        return ops()
    video.Video.encode_frame = encode_frame


def make(samples, mode=VideoMode.HGR, **kw):
    AUDIO["blocks"] = [samples]
    kw.setdefault("audio_normalization", 1.)
    return movie.Movie("film.avi", video_mode=mode, **kw)


def fake_converter(n_frames, root):
    """bmp2dhr and the video reader; returns the list of calls"""
    import subprocess, skvideo.io
    calls = []

    class Image:
        def __init__(self, n):
            self.n = n

        def resize(self, *a, **k):
            return self

        def save(self, f):
            assert os.path.abspath(f).startswith(root)
            with open(f, "w") as o:
                o.write(str(self.n))

    class Reader:
        def __init__(self, f):
            pass

    skvideo.io.FFmpegReader = Reader
    skvideo.io.ffprobe = lambda f: {"video": {"@r_frame_rate": "30/1"}}
    frame_grabber.FileFrameGrabber._frame_grabber = \
        lambda self: (Image(i) for i in range(n_frames))

    def call(cmd, *a, **k):
        calls.append(cmd)
        b = cmd[1][:-4]
        with open(cmd[1]) as f:
            n = int(f.read())
        d = np.full(8192, n % 251, dtype=np.uint8)
        d[:2] = n % 256, n // 256
        if cmd[2] == "dhgr":
            d.tofile(b + ".BIN"); d.tofile(b + ".AUX")
        else:
            d.tofile(b + "C.BIN")
        return 0
    frame_grabber.subprocess.call = call
    return calls
