from seedtool import seed
import sys
ONLY = sys.argv[1:]
_seed = seed
def seed(i, *a, **k):
    if not ONLY or any(i.startswith(o) for o in ONLY):
        _seed(i, *a, **k)
SC, CO, PA, VI, MD = ["transcoder/%s.py" % x for x in (
    "screen", "colours", "palette", "video", "make_data_tables")]
PRE = '''import sys
sys.path.insert(0, "transcoder")
import numpy as np
import screen, palette, colours
rng = np.random.RandomState(1)
NT = palette.Palette.NTSC
def rnd(hi=256):
    return rng.randint(0, hi, size=(32, 256)).astype(np.uint8)
def dh(m, a):
    return screen.DHGRBitmap(NT, screen.MemoryMap(1, m), screen.MemoryMap(1, a))
def hg(m):
    return screen.HGRBitmap(NT, screen.MemoryMap(1, m))
def sync(bm):
    n = dh(bm.main_memory.page_offset, bm.aux_memory.page_offset) if bm.aux_memory else hg(bm.main_memory.page_offset)
    assert np.array_equal(n.packed, bm.packed)
'''
seed("s01_holes_last_rows", "S01", "a visible byte of the third group of rows is taken for a hole, or a hole for visible",
 "screen holes table is filled from the wrong offsets for the last third of the rows",
 [(SC, "            SCREEN_HOLES[page - 32, offset] = False\n", "            SCREEN_HOLES[page - 32, offset if x else offset - y // 128] = False\n")],
 PRE + '''for p in range(32):
    for o in range(256):
        assert screen.SCREEN_HOLES[p, o] == (o % 128 >= 120)
''')
seed("s01_page2_coords", "S01", "coordinates of an address on the second screen page",
 "address coordinates of screen page 2 are not filled for the last column",
 [(SC, "                a = Y_TO_BASE_ADDR[p][y] + x\n", "                a = Y_TO_BASE_ADDR[0][y] + 8192 * p * (x < 39) + x\n")],
 PRE + '''assert screen.ADDR_TO_COORDS[0x2000 + 39] == (0, 0, 39)
assert screen.ADDR_TO_COORDS[0x4000 + 39] == (1, 0, 39)
''')
seed("s02_first_footer", "S02", "a store into the second packed column of a page",
 "footer of the first column is left stale",
 [(SC, "        if byte_offset == 0 and offset > 0:", "        if byte_offset == 0 and offset > 1:")],
 PRE + '''b = dh(rnd(128), rnd(128))
for o in range(256):
    b.apply(3, o, True, np.uint8((int(b.aux_memory.page_offset[3, o]) ^ 0x7f)))
    sync(b)
''')
seed("s02_header_mask", "S02", "a store whose new neighbour header has fewer bits set than the old one",
 "old header bits are not cleared completely",
 [(SC, "            (2 ** (self.BODY_BITS + self.FOOTER_BITS) - 1)) << self.HEADER_BITS",
   "            (2 ** (self.BODY_BITS + self.FOOTER_BITS + 1) - 1)) << (self.HEADER_BITS - np.uint64(1))")],
 PRE + '''b = hg(rnd())
for o in range(256):
    b.apply(3, o, False, np.uint8(int(b.main_memory.page_offset[3, o]) ^ 0xff))
    sync(b)
''')
seed("s02_same_value", "S02", "a store of a value that equals the byte stored at that place of the other bank",
 "a store is skipped when the wrong bank already holds the value",
 [(SC, "        byte_offset = self.byte_offset(offset, is_aux)\n        packed_offset = offset // 2\n",
   "        byte_offset = self.byte_offset(offset, is_aux)\n        packed_offset = offset // 2\n        if is_aux and value and value == self.main_memory.page_offset[page, offset]:\n            return\n")],
 PRE + '''b = dh(rnd(128), rnd(128))
v = b.main_memory.page_offset[4, 4]
b.apply(4, 4, True, v)
assert b.aux_memory.page_offset[4, 4] == v
''')
seed("s03_hgr_header_palette", "S03", "an HGR byte without palette bit after a byte with one",
 "delay of the left neighbour is ignored",
 [(SC, "        hp = (h & 0x80) >> 7\n", "        hp = (h & (masked_val << 4) & 0x80) >> 7\n")],
 PRE + '''d = screen.HGRBitmap.to_dots
assert d(0b101, 0) & 7 == 0b011, bin(d(0b101, 0))
''')
seed("s04_page_columns", "S04", "evaluating a store at an odd offset",
 "distances of even and odd offsets of auxiliary memory are exchanged",
 [(SC, "        diff[0::2] = dists[0]\n        diff[1::2] = dists[1]\n", "        diff[is_aux::2] = dists[0]\n        diff[1 - is_aux::2] = dists[1]\n")],
 PRE + '''D = rng.randint(1, 60000, size=(4, 1 << 26), dtype=np.uint16)
screen.np.load = lambda *a, **k: {"edit_distance": D}
t = dh(rnd(128), rnd(128))
d = t.edit_distances(NT)
dw = np.zeros((256,), dtype=np.int32)
for aux in (False, True):
    delta = t.compute_delta_page(3, np.uint8(5), dw, aux)
    for o in (10, 11):
        n = dh(t.main_memory.page_offset.copy(), t.aux_memory.page_offset.copy())
        n.apply(3, o, aux, np.uint8(5))
        b = t.byte_offset(o, aux)
        w = [int(x.mask_and_shift_data(x.packed[3, o // 2], b)) for x in (n, t)]
        assert delta[o] == d[b][(w[0] << 13) + w[1]], (aux, o)
''')
seed("s04_inplace", "S04", "evaluating any store, then looking at the target",
 "scoring a candidate store overwrites the target's packed screen",
 [(SC, "            if content is not None:\n                compare_packed = self.masked_update(o, source_packed, content)\n                self._fix_array_neighbours(compare_packed, o)\n            else:\n                compare_packed = source_packed\n\n            # Pixels influenced by byte offset o\n            source_pixels = self.mask_and_shift_data(compare_packed, o)\n            target_pixels = self.mask_and_shift_data(target_packed, o)\n",
   "            if content is not None:\n                compare_packed = source_packed\n                target_packed = source_packed.copy()\n                source_packed[:] = self.masked_update(o, source_packed, content)\n                self._fix_array_neighbours(compare_packed, o)\n            else:\n                compare_packed = source_packed\n\n            # Pixels influenced by byte offset o\n            source_pixels = self.mask_and_shift_data(compare_packed, o)\n            target_pixels = self.mask_and_shift_data(target_packed, o)\n")],
 PRE + '''D = np.zeros((4, 1 << 26), dtype=np.uint16)
screen.np.load = lambda *a, **k: {"edit_distance": D}
t = dh(rnd(128), rnd(128))
p = t.packed.copy()
t.compute_delta_page(3, np.uint8(5), np.zeros((256,), dtype=np.int32), False)
assert np.array_equal(p, t.packed)
''')
seed("s05_flat_end", "S05", "a store to the last byte of the screen page in a flat map",
 "last address is refused",
 [(SC, "        self._addr_end = self._addr_start + 8191\n", "        self._addr_end = self._addr_start + 8190\n")],
 PRE + '''f = screen.FlatMemoryMap(1)
f.write(0x3fff, 3)
assert f.data[8191] == 3
''')
seed("s05_page2", "S05", "a store to the second screen page of a memory map",
 "page number relative to page 1",
 [(SC, "        self._page_start = 32 * screen_page\n", "        self._page_start = 32\n")],
 PRE + '''f = screen.MemoryMap(2)
f.write(65, 3, 9)
assert f.page_offset[1, 3] == 9
''')
seed("d01_transpose_inplace", "D01", "distance between windows of byte offset 1 and above",
 "only the first byte offset's table is made symmetric",
 [(SC, "        for i in range(dist.shape[0]):\n            dist[i, transpose] += dist[i, identity]\n", "        for i in range(min(dist.shape[0], cls.SCREEN_BANKS)):\n            dist[i, transpose] += dist[i, identity]\n"),
  (SC, "    # NTSC clock phase at first masked bit\n    PHASES = None", "    # Number of memory banks\n    SCREEN_BANKS = 2\n\n    # NTSC clock phase at first masked bit\n    PHASES = None")],
 PRE + '''D = np.zeros((4, 1 << 26), dtype=np.uint16)
D[3, (5 << 13) + 4] = 77
screen.np.load = lambda *a, **k: {"edit_distance": D}
d = screen.DHGRBitmap.edit_distances(NT)
assert d[3, (4 << 13) + 5] == 77
''')
seed("d01_palette_id", "D01", "using a palette other than the first",
 "the file name lacks the palette number when reading",
 [(SC, "            cls.NAME, palette_id.value\n", "            cls.NAME, pal.Palette.NTSC.value\n")],
 PRE + '''names = []
def load(n, *a, **k):
    names.append(n)
    return {"edit_distance": np.zeros((4, 1 << 26), dtype=np.uint16)}
screen.np.load = load
screen.DHGRBitmap.edit_distances(palette.Palette.IIGS)
assert names == ["transcoder/data/DHGR_palette_0_edit_distance.npz"]
''')
seed("c01_last_windows", "C01", "colours of many dots at a time with a phase other than 1",
 "phase restarts after 16 dots",
 [(CO, "    shifted = dots\n", "    shifted = int(dots)\n    phase0 = init_phase\n")],
 PRE + "assert 0\n") if 0 else None
