"""V-series: the video encoder."""

import numpy as np

from sa.py.npmodel import NotIn, ZeroWhere
from .common import finish, finish_all
from .cross import opcode_analysis, small_dbg

IMPORTS = ("import screen, palette, video_mode, numpy, heapq, random, video, "
           "opcodes\n")

# A bitmap whose scores are unknown: S04 decides what they are, S02 what
# apply() does.  Distances are never negative, so no score is less than the
# present distance, negated.
PRE = '''
import screen, palette, video_mode, video
import numpy as np
dhgr = DHGR_MODE
MODE = "DHGR" if dhgr else "HGR"
Cls = screen.DHGRBitmap if dhgr else screen.HGRBitmap
VM = video_mode.VideoMode.DHGR if dhgr else video_mode.VideoMode.HGR
pal = palette.Palette.NTSC
hi = 0x7f if dhgr else 0xff
LOG = []

def apply(self, page, offset, is_aux, value):
    LOG.append((self, page, offset, is_aux, value))
Cls.apply = apply

class FG:
    def __init__(self):
        self.input_frame_rate = 30
'''

MAIN = PRE + '''
class Tgt(Cls):
    def diff_weights(self, source, is_aux):
        return __array__("diff", (32, 256), "int32", 0, 2**20)
    def compute_delta_page(self, page, content, diff_weights, is_aux):
        return __array__("newdiff", (256,), "int32", 0, 2**20) - diff_weights
    def byte_pair_difference(self, byte_offset, old_packed, content):
        return np.uint16(__any_int__("bpd", 0, 65535))

v = video.Video(FG(), 14700., VM, pal)
if dhgr:
    t = Tgt(pal, screen.MemoryMap(1), screen.MemoryMap(1))
else:
    t = Tgt(pal, screen.MemoryMap(1))
t.main_memory.page_offset = __array__("tm", (32, 256), "uint8", 0, hi)
if dhgr:
    t.aux_memory.page_offset = __array__("ta", (32, 256), "uint8", 0, hi)
t.packed = __array__("packed", (32, 128), "uint64")

def bound(x):
    """accumulated differences do not overflow"""
    if isinstance(x, np.ndarray):
        if x.shape == (32, 256) and x.dtype == np.int32:
            __bound__(x, -2**31, 2**31 - 1 - 2**20)
    elif isinstance(x, dict):
        for k in x:
            bound(x[k])
    elif isinstance(x, (list, tuple)):
        for y in x:
            bound(y)

def frame():
    bound(v.__dict__)
    aux = dhgr and __any_bool__()
    mem = t.aux_memory.page_offset if aux else t.main_memory.page_offset
    g = v.encode_frame(t, aux)
    while __any_bool__():
        LOG.clear()
        op = next(g)
CHECKS
        LOG.clear()

def main():
    while __any_bool__():
        frame()
main()
'''

V01 = '''
        __check__(len(op) == 3, "an operation is a page, a content byte and "
                  "offsets", "")
        page, content, offs = op
        __check__(0x20 <= page <= 0x3f, "pages " + MODE,
                  "a store outside the screen's pages")
        __check__(0 <= content <= hi, "content " + MODE,
                  "content is no byte")
        for o in offs:
            __check__(0 <= o <= 255, "offsets " + MODE,
                      "an offset is no byte")
            __check__(o % 128 < 120, "screen holes " + MODE,
                      "a store into a screen hole")
'''

V02 = '''
        page, content, offs = op
        for b, p, o, x, c in LOG:
            __check__(b is v.pixelmap, "the model is updated " + MODE,
                      "another bitmap is updated")
            __check__(p == page - 32 and c == content,
                      "page and content " + MODE, "the model gets another "
                      "page or content than the player")
            __check__(bool(x) == aux, "bank " + MODE,
                      "the model is updated in the other memory bank")
            __check__(any([o == q for q in offs]), "no other store " + MODE,
                      "the model gets a store the player does not")
        for q in offs:
            __check__(any([o == q for b, p, o, x, c in LOG]),
                      "every store " + MODE, "the player gets a store that "
                      "the model does not")
'''

V03 = '''
        page, content, offs = op
        __check__(len(offs) == 4, "four offsets " + MODE,
                  "an operation does not have four offsets")
        __check__(content == mem[page - 32, offs[0]],
                  "content is the target's " + MODE,
                  "the content byte is not the target's at the first offset")
'''


def analysis():
    a = opcode_analysis({}, IMPORTS, small_dbg(), 10 ** 8)
    holes = np.zeros((32, 256), bool)
    holes[:, 120:128] = holes[:, 248:256] = True
    a.vm.array_preds["holes0"] = ZeroWhere(holes)
    a.vm.elem_preds["visible"] = NotIn(holes[0])
    a.vm.summarise = True
    a.vm.residues = False
    a.vm.eager = True
    a.vm.atomise = True
    return a


def general(checks, need):
    def check(rep, tier):
        rep.explanation = (
            "Abstract interpretation of Video.encode_frame for any number of "
            "frames, each abandoned after any number of operations, on any "
            "targets, distances and scores.")
        for dhgr in (False, True):
            finish(rep, analysis(), MAIN.replace("CHECKS", checks).replace(
                "DHGR_MODE", str(dhgr)), need * (1 + dhgr))
    return check


V01 = general(V01, 4)
V02 = general(V02, 4)
V03 = general(V03, 2)

# Frames that differ from the screen at up to two places: the queue then has
# a known length, and the expected operations can be told.
FEW = PRE + '''
class Tgt(Cls):
    """change: cells and their differences; left: the difference that the
    other cell's content byte would leave"""
    def diff_weights(self, source, is_aux):
        d = np.zeros((32, 256), dtype=np.int32)
        for (p, o), x in self.change:
            d[p, o] = x
        return d
    def compute_delta_page(self, page, content, diff_weights, is_aux):
        d = np.zeros((256,), dtype=np.int32)
        if self.extra >= 0:
            d[self.cells[self.extra][1]] = \
                self.left - self.change[self.extra][1]
        d[self.stray] = -5
        return d
    def byte_pair_difference(self, byte_offset, old_packed, content):
        return np.uint16(self.left)

def offset(lo):
    return lo + __any_int__("o", 1, 39)

v = video.Video(FG(), 14700., VM, pal)
same = __choose__(2) == 1
page = __any_int__("page", 0, 15)
cells = [(page, offset(0)), (page if same else page + 16, offset(40))]
stray = offset(128)
pending = {}

def frame(lo):
    if dhgr:
        t = Tgt(pal, screen.MemoryMap(1), screen.MemoryMap(1))
    else:
        t = Tgt(pal, screen.MemoryMap(1))
    t.main_memory.page_offset = __array__("tm", (32, 256), "uint8", 0, hi)
    if dhgr:
        t.aux_memory.page_offset = __array__("ta", (32, 256), "uint8", 0, hi)
    t.packed = __array__("packed", (32, 128), "uint64")
    t.cells, t.stray = cells, stray
    t.change = [(c, __any_int__("d", lo, 65535)) for c in cells]
    t.extra = -1
    return t

def which(page, offset):
    return [i for i in (0, 1)
            if page - 32 == cells[i][0] and offset == cells[i][1]]

def run(bank, n, lo):
    t = frame(lo)
    mem = t.aux_memory.page_offset if bank else t.main_memory.page_offset
    g = v.encode_frame(t, bank)
    key = {}
    for i in (0, 1):
        d = t.change[i][1]
        k = (bank, i)
        if d == 0:
            pending[k] = 0
        else:
            pending[k] = pending.get(k, 0) + d
        key[i] = pending[k]
    for step in range(n):
        # which cell can take the other one's content byte, and how well
        w = [i for i in (0, 1) if pending[bank, i] != 0]
        t.extra = -1
        if len(w) == 2 and same and step == 0:
            if __choose__(2):
                __assume__(key[0] != key[1])
                t.extra = 1 if key[0] > key[1] else 0
                x = t.change[t.extra][1]
                t.left = __any_int__("left", 0, 65535)
        page, content, offs = next(g)
        offs = list(offs)
        c = which(page, offs[0])
        if not w:
ALL_DONE
            continue
        if CHECK_LOST:
            __check__(len(c) == 1, "changes come before padding " + MODE,
                      "an operation changes nothing though the screen "
                      "differs from the image")
        if len(c) != 1:
            __stop__()
        i = c[0]
        j = 1 - i
        if CHECK_LOST:
            __check__(pending[bank, i] != 0, "no change is made twice " +
                      MODE, "an operation starts with a store that is not "
                      "needed")
            __check__(content == mem[cells[i]], "content " + MODE,
                      "the store does not bring the target's byte")
        if CHECK_ORDER and pending[bank, j] != 0:
            __check__(key[i] >= key[j], "largest difference first " + MODE,
                      "a smaller accumulated difference goes first")
        pending[bank, i] = 0
        rest = [o for o in offs if o != cells[i][1]]
        if t.extra == j and t.left < t.change[j][1]:
            if CHECK_LOST:
                __check__(len(rest) >= 1 and
                          all([o == cells[j][1] for o in rest]),
                          "fitting offsets are used " + MODE,
                          "an offset that the content byte would improve "
                          "is not among those of the operation")
            pending[bank, j] = t.left
        elif CHECK_LOST:
            __check__(not rest, "other offsets are not used " + MODE,
                      "the content byte is stored where it does not help")

run(BANK1 == 1, STEPS1, 1)
run(BANK2 == 1, STEPS2, 0)
'''

DONE = '''
            __check__(not c and page == 32 and offs == [0, 0, 0, 0] and
                      content == mem[0, 0], "padding " + MODE,
                      "with nothing left to do, an operation does not "
                      "repeat the target's first byte")
'''


def few(lost, need, what):
    def check(rep, tier):
        rep.explanation = (
            "Abstract interpretation of Video.encode_frame for two "
            "consecutive frames that differ from the screen at up to two "
            "symbolic places by symbolic amounts: " + what)
        hs = []
        for dhgr in (False, True):
            for steps in ((1, 3), (2, 2)):
                for banks in ((0, 0), (0, 1), (1, 0), (1, 1)):
                    if not dhgr and banks != (0, 0):
                        continue
                    h = FEW.replace("ALL_DONE",
                                    DONE if lost else "            pass")
                    for k, x in (
                            ("DHGR_MODE", dhgr), ("CHECK_LOST", lost),
                            ("CHECK_ORDER", not lost),
                            ("STEPS1", steps[0]), ("STEPS2", steps[1]),
                            ("BANK1", banks[0]), ("BANK2", banks[1])):
                        h = h.replace(k, str(x))
                    hs.append(h)
        a = opcode_analysis({}, IMPORTS, small_dbg(), 10 ** 8)
        a.vm.sparse = 12
        a.vm.residues = False
        finish_all(rep, a, hs, need, join=False)
    return check


V04 = few(True, 4, "no change is lost, repeated or made needlessly")
V05 = few(False, 1, "differences accumulate and the largest goes first")

# One store whose content byte would also help elsewhere on its page.
BEST = PRE + '''
OFFS = OFFSETS
PENDING = [o for o in OFFS if o != DONE_ALREADY]
MANY = len(OFFS) > 9
DELTA = {OFFS[i]: -2 - i * 37 % 151 if MANY
         else __any_int__("delta", -30000, 5) for i in range(len(OFFS))}
PAGE = 7 if MANY else __any_int__("page", 0, 31)
FIRST = FIRST_OFFSET

class Tgt(Cls):
    def diff_weights(self, source, is_aux):
        d = np.zeros((32, 256), dtype=np.int32)
        for i in range(len(PENDING)):
            d[PAGE, PENDING[i]] = 30000 + i
        d[PAGE, FIRST] = 31000
        return d
    def compute_delta_page(self, page, content, diff_weights, is_aux):
        d = np.zeros((256,), dtype=np.int32)
        for o in OFFS:
            d[o] = DELTA[o]
        return d
    def byte_pair_difference(self, byte_offset, old_packed, content):
        return np.uint16(0)

def distinct():
    for i in range(len(PENDING)):
        for j in range(i):
            __assume__(DELTA[PENDING[i]] != DELTA[PENDING[j]])
if not MANY:
    distinct()

v = video.Video(FG(), 14700., VM, pal)
if dhgr:
    t = Tgt(pal, screen.MemoryMap(1), screen.MemoryMap(1))
else:
    t = Tgt(pal, screen.MemoryMap(1))
t.main_memory.page_offset = __array__("tm", (32, 256), "uint8", 0, hi)
if dhgr:
    t.aux_memory.page_offset = __array__("ta", (32, 256), "uint8", 0, hi)
t.packed = __array__("packed", (32, 128), "uint64")
g = v.encode_frame(t, BANK == 1)
page, content, offs = next(g)
offs = list(offs)
good = [o for o in PENDING if DELTA[o] < 0]

def better(o):
    return len([p for p in good if DELTA[p] < DELTA[o]])
if MANY:
    third = sorted([DELTA[o] for o in good])[2]
    best = [o for o in good if DELTA[o] <= third]
else:
    best = [o for o in good if better(o) < 3]
__check__(page == PAGE + 32 and offs[0] == FIRST, "the largest first " + MODE,
          "an operation does not start with the place that differs most")
__check__(all([o in offs for o in best]), "best offsets " + MODE,
          "an offset that the content byte improves more than others is "
          "missing")
__check__(all([o == FIRST or o in best for o in offs]), "no others " + MODE,
          "the operation stores where it helps less, or not at all")
'''


def V06(rep, tier):
    rep.explanation = (
        "Abstract interpretation of the first operation of a frame, with "
        "five other places on the page whose improvement by the content "
        "byte is symbolic, one of which needs no change, and with 150 "
        "other places and constant improvements.")
    hs = []
    for dhgr in (False, True):
        for bank in range(1 + dhgr):
            for offs, first, already in (
                    ([5, 6, 7, 40, 200], 119, 7),
                    ([0, 118, 119, 128, 247], 1, 128),
                    (list(range(100)) + list(range(150, 200)), 119, 7)):
                h = BEST
                for k, x in (("DHGR_MODE", dhgr), ("OFFSETS", offs),
                             ("DONE_ALREADY", already), ("BANK", bank),
                             ("FIRST_OFFSET", first)):
                    h = h.replace(k, str(x))
                hs.append(h)
    a = opcode_analysis({}, IMPORTS, small_dbg(), 10 ** 8)
    a.vm.sparse = 400
    a.vm.residues = False
    finish_all(rep, a, hs, 3, join=False)
