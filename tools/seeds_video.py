from seedtool import seed
import sys
ONLY = sys.argv[1:]
_seed = seed
def seed(i, *a, **k):
    if not ONLY or any(i.startswith(o) for o in ONLY):
        _seed(i, *a, **k)
VI = "transcoder/video.py"
PRE = '''import os, sys
sys.path.insert(0, "transcoder")
import numpy as np
import screen, palette, video, video_mode, frame_grabber
rng = np.random.RandomState(7)
NT = palette.Palette.NTSC
HOLES = np.arange(256) % 128 >= 120
sys.stdout = open(os.devnull, "w")


class Rec:
    def __getitem__(self, k):
        return k


def pop(x):
    x = np.asarray(x).astype(int)
    return sum((x >> i) & 1 for i in range(8))


def score(a, b):
    return pop(np.asarray(a) ^ np.asarray(b))


def make(base):
    class Tgt(base):
        """scores: number of differing bits"""
        def mem(self, is_aux):
            return (self.aux_memory if is_aux else self.main_memory).page_offset
        def diff_weights(self, source, is_aux):
            s = (source.aux_memory if is_aux else source.main_memory)
            self.was_aux = is_aux
            return SCORE(self.mem(is_aux), s.page_offset).astype(np.int32)
        def compute_delta_page(self, page, content, diff_weights, is_aux):
            return SCORE(self.mem(is_aux)[page], content).astype(np.int32) - diff_weights
        def byte_offset(self, offset, is_aux):
            return offset
        def byte_pair_difference(self, byte_offset, old_packed, content):
            return np.uint16(SCORE(self.mem(self.was_aux)[old_packed[0], byte_offset], content))
    return Tgt


SCORE = score


def target(main, aux=None):
    if aux is None:
        t = make(screen.HGRBitmap)(NT, screen.MemoryMap(1, main))
    else:
        t = make(screen.DHGRBitmap)(NT, screen.MemoryMap(1, main), screen.MemoryMap(1, aux))
    t.packed = Rec()
    return t


def encoder(mode):
    return video.Video(frame_grabber.FrameGrabber(mode=mode), 14700., mode, NT)


HGR, DHGR = video_mode.VideoMode.HGR, video_mode.VideoMode.DHGR


def blank():
    return np.zeros((32, 256), dtype=np.uint8)


def image(n, hi=128):
    """n random bytes in visible places"""
    m = blank()
    for _ in range(n):
        o = rng.randint(240)
        m[rng.randint(32), o if o < 120 else o + 8] = rng.randint(1, hi)
    return m


def ops(v, t, n, aux=False):
    g = v.encode_frame(t, aux)
    for _ in range(n):
        p, c, o = next(g)
        yield int(p) - 32, int(c), [int(x) for x in o]
'''
seed("v01_ends_when_idle", "V01", "many operations after the screen has become equal to the image",
 "encode_frame ends after the 10000th padding operation instead of padding for ever",
 [(VI, "        while True:\n            self.pixelmap", "        for _ in range(10000):\n            self.pixelmap")],
 PRE + '''v = encoder(HGR)
assert len(list(ops(v, target(image(3)), 12000))) == 12000
''')
seed("v01_aux_holes", "V01", "DHGR images whose auxiliary memory has data in its screen holes",
 "only main memory's screen holes are excluded",
 [(VI, "        diff_weights[screen.SCREEN_HOLES] = 0\n", "        if target is target_pixelmap.main_memory:\n            diff_weights[screen.SCREEN_HOLES] = 0\n")],
 PRE + '''v = encoder(DHGR)
m, a = image(20), image(20)
m[:, 120:128] = a[:, 250:] = 0x55
for aux in (False, True):
    for p, c, o in ops(v, target(m, a), 60, aux):
        assert 0 <= p < 32 and not HOLES[o].any()
''')
seed("v02_exact_not_applied", "V02", "an operation with a further offset where the content byte is exactly the target's",
 "the screen model is only updated at further offsets where a difference remains",
 [(VI, "                self.pixelmap.apply(page, o, is_aux, content)\n                if p:\n", "                if p:\n                    self.pixelmap.apply(page, o, is_aux, content)\n")],
 PRE + '''v = encoder(HGR)
m = blank()
m[4, 3] = m[4, 9] = m[4, 200] = 0x55
s = blank()
for p, c, o in ops(v, target(m), 5):
    s[p, o] = c
    assert np.array_equal(s, v.memory_map.page_offset)
''')
seed("v02_first_only_if_changed", "V02", "a place that is corrected a second time in the same frame",
 "the model is not updated for the second store to the same place within a frame",
 [(VI, "            # Update memory maps\n            self.pixelmap.apply(page, offset, is_aux, content)\n",
   "            # Update memory maps\n            if (page, offset) not in requeued:\n                self.pixelmap.apply(page, offset, is_aux, content)\n"),
  (VI, "        while priorities:\n", "        requeued = set()\n        while priorities:\n"),
  (VI, "                    heapq.heappush(\n", "                    requeued.add((page, o))\n                    heapq.heappush(\n")],
 PRE + '''v = encoder(HGR)
s = blank()
m = image(300)
for p, c, o in ops(v, target(m), 300):
    s[p, o] = c
    assert np.array_equal(s, v.memory_map.page_offset)
''')
seed("v03_pad_three", "V03", "an operation with exactly two further offsets",
 "operations with two useful further offsets have three offsets",
 [(VI, "            for _ in range(len(offsets), 4):\n", "            for _ in range(len(offsets) - len(offsets) // 3, 3):\n                if len(offsets) == 3:\n                    break\n                offsets.append(offsets[0])\n            for _ in range(len(offsets), 4 if len(offsets) != 3 or offsets[0] == offsets[2] else 3):\n")],
 PRE + '''v = encoder(HGR)
m = image(300)
m[4, 3] = m[4, 9] = m[4, 200] = 0x7f
for p, c, o in ops(v, target(m), 300):
    assert len(o) == 4 and m[p, o[0]] == c, o
''')
seed("v03_idle_bank", "V03", "a new image for auxiliary memory after it had once been completed",
 "once auxiliary memory has been completed, its target bytes come from main memory",
 [(VI, "        if self.mode == VideoMode.DHGR and is_aux:\n            target", "        if self.mode == VideoMode.DHGR and is_aux and not (\n                self.out_of_work[True] and self.out_of_work[False]):\n            target")],
 PRE + '''v = encoder(DHGR)
for i in range(2):
    for aux in (True, False):
        m, a = image(20), image(20)
        for p, c, o in ops(v, target(m, a), 40, aux):
            assert c == (a if aux else m)[p, o[0]]
''')
seed("v04_small_rest", "V04", "a further store that leaves a difference of one",
 "differences of one left by further stores are forgotten for the frame",
 [(VI, "                update_priority[page, o] = p\n", "                update_priority[page, o] = p if p > 1 else 0\n")],
 PRE + '''v = encoder(HGR)
m = blank()
m[4, 3], m[4, 9] = 0x7f, 0x3f
for _ in ops(v, target(m), 3):
    pass
assert np.array_equal(v.memory_map.page_offset, m)
''')
seed("v04_shared_pending", "V04", "DHGR: main memory abandoned before auxiliary memory is encoded",
 "what is pending in main memory is also taken to be pending in auxiliary memory",
 [(VI, "            update_priority = self.aux_update_priority\n", "            update_priority = self.aux_update_priority\n            if not update_priority.any():\n                np.copyto(update_priority, self.update_priority)\n")],
 PRE + '''v = encoder(DHGR)
m, a = blank(), blank()
m[4, 3], a[4, 3], a[9, 9] = 0x7f, 1, 3
m[6, 6] = 0x7f
next(v.encode_frame(target(m, a), False))
got = [x[0] for x in ops(v, target(m, a), 2, True)]
assert got == [9, 4], got
''')
seed("v05_max", "V05", "a place that stays pending over two frames and one with a greater but new difference",
 "the greater of the differences counts instead of their sum",
 [(VI, "        update_priority += diff_weights\n", "        np.maximum(update_priority, diff_weights, out=update_priority)\n")],
 PRE + '''v = encoder(HGR)
m = blank()
m[4, 3] = m[5, 5] = 7
m[6, 6] = 0x7f
assert next(ops(v, target(m), 1))[0] == 6
m[6, 6] = 0
m[7, 7] = 0x1f
m[6, 6] = 0x7f
assert next(ops(v, target(m), 1))[0] in (4, 5)
''')
seed("v05_main_keeps", "V05", "DHGR: a place of auxiliary memory that is right again while still pending",
 "pending places of auxiliary memory are not dropped when a new image matches them",
 [(VI, "        update_priority[diff_weights == 0] = 0\n", "        if update_priority is self.update_priority:\n            update_priority[diff_weights == 0] = 0\n")],
 PRE + '''v = encoder(DHGR)
m, a = blank(), blank()
a[4, 3], a[5, 5] = 0x7f, 7
assert next(ops(v, target(m, a), 1, True))[0] == 4
a[5, 5] = 0
a[8, 8] = 1
assert [x[0] for x in ops(v, target(m, a), 2, True)] == [8, 0]
''')
seed("v05_coarse", "V05", "two places whose priorities differ little",
 "priorities are compared in steps of four",
 [(VI, "            -update_priority[pages, offsets],\n", "            -(update_priority[pages, offsets] >> 2),\n")],
 PRE + '''for _ in range(40):
    v = encoder(HGR)
    m = blank()
    m[4, 3], m[5, 5] = 0x7f, 0x3f
    assert next(ops(v, target(m), 1))[0] == 4
''')
seed("v06_first_sixteen", "V06", "more than sixteen candidates on a page, the best of them at high offsets",
 "only the first sixteen candidates are considered",
 [(VI, "            for i in range(len(candidate_offsets))\n", "            for i in range(min(len(candidate_offsets), 16))\n")],
 PRE + '''v = encoder(HGR)
m = blank()
m[4, 0:60] = 1
m[4, 0] = 0x3f
m[4, 200:203] = 0x1f
t = target(m)
p, c, o = next(ops(v, t, 1))
assert set(o) == {0, 200, 201, 202}, o
''' .replace("m[4, 0:60] = 1", "m[4, 0:60] = 0x33"))
seed("v06_random_first", "V06", "candidates that are improved by different amounts",
 "further offsets are taken in random order instead of best first",
 [(VI, "            (priorities[i], random.getrandbits(8), candidate_offsets[i])\n", "            (priorities[i] // 8, random.getrandbits(8), candidate_offsets[i])\n")],
 PRE + '''for _ in range(30):
    v = encoder(HGR)
    m = blank()
    m[4, 0] = 0x7f
    m[4, 10:40] = 0x1f
    m[4, 50:53] = 0x3f
    p, c, o = next(ops(v, target(m), 1))
    assert set(o) == {0, 50, 51, 52}, o
''')
