"""Stand-ins for the media libraries, and the Movie pipeline on top of them."""

from .cross import opcode_analysis, small_dbg

MEDIA = '''
import numpy as np
CFG = {"rate": "30/1", "frames": 4, "blocks": [], "channels": 2,
       "samplerate": 44100, "opened": [], "resampled": []}

class Audio:
    def __init__(self):
        self.channels = CFG["channels"]
        self.samplerate = CFG["samplerate"]
        self.duration = 10.0
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return False
    def close(self):
        pass
    def read_data(self, block_samples=1024):
        for i in range(len(CFG["blocks"])):
            if "data" in CFG:
                yield CFG["data"](i)
            else:
                yield bytes([i, 0] * CFG["channels"])
    def __iter__(self):
        return self.read_data()

def audio_open(path):
    CFG["opened"].append(path)
    return Audio()

def to_mono(y):
    __check__(len(y.shape) == 2 and y.shape[0] == CFG["channels"],
              "channels separated", "audio channels are not de-interleaved")
    if "mono" in CFG:
        return CFG["mono"](y)
    return y[0]

def resample(y, orig, target):
    CFG["resampled"].append((orig, target))
    return CFG["resample"](y)

def frames(filename):
    for i in range(CFG["frames"]):
        yield np.full((4, 4, 3), i, dtype=np.uint8)

def probe(filename):
    CFG["opened"].append(filename)
    return {"video": {"@r_frame_rate": CFG["rate"]}}
'''

IMPORTS = ("import movie, video, palette, screen, frame_grabber, audio, "
           "__media__, numpy\n")


def movie_analysis(stubs=None, imports="", budget=10 ** 9, script=None,
                   base=IMPORTS):
    return opcode_analysis(dict({"__media__": MEDIA}, **(stubs or {})),
                           base + imports, small_dbg(), budget, script)
