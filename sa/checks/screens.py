"""S-series: screen memory, packed screen model, scoring tables."""

from sa.py.drive import Analysis
from .common import finish

IMPORTS = "import screen, palette, numpy\n"

PRE = '''
import screen, palette, numpy
import numpy as np
dhgr = DHGR_MODE
cls = screen.DHGRBitmap if dhgr else screen.HGRBitmap
pal = palette.Palette.NTSC
MODE = "DHGR" if dhgr else "HGR"

def arr(n):
    return __array__(n, (32, 256), "uint8")

def bitmap(m, a):
    if dhgr:
        return cls(pal, screen.MemoryMap(1, m), screen.MemoryMap(1, a))
    return cls(pal, screen.MemoryMap(1, m))
'''

S01_MAIN = '''
import screen
def spec(y, p):
    return 0x2000 * (p + 1) + (y % 8) * 0x400 + (y // 8 % 8) * 0x80 \\
        + y // 64 * 40
for p in range(2):
    y = __any_int__("y", 0, 191)
    __check__(screen.y_to_base_addr(y, p) == spec(y, p),
              "row address formula, page %d" % (p + 1),
              "a row's base address is wrong")
y = __any_int__("y", 0, 191)
__check__(screen.y_to_base_addr(y) == spec(y, 0), "row address, default page",
          "a row's base address is wrong")
'''

S01_TABLES = '''
import screen
for y in range(192):
    for p in range(2):
        b = 0x2000 * (p + 1) + (y % 8) * 0x400 + (y // 8 % 8) * 0x80 \\
            + y // 64 * 40
        __check__(screen.Y_TO_BASE_ADDR[p][y] == b,
                  "Y_TO_BASE_ADDR", "address of row %d page %d" % (y, p + 1))
    for x in range(40):
        a = 0x2000 + (y % 8) * 0x400 + (y // 8 % 8) * 0x80 + y // 64 * 40 + x
        pg, off = (a - 0x2000) // 256, a % 256
        __check__(screen.X_Y_TO_PAGE[y, x] == pg, "X_Y_TO_PAGE",
                  "page of byte %d of row %d" % (x, y))
        __check__(screen.X_Y_TO_OFFSET[y, x] == off, "X_Y_TO_OFFSET",
                  "offset of byte %d of row %d" % (x, y))
        __check__(screen.PAGE_OFFSET_TO_X[pg, off] == x, "PAGE_OFFSET_TO_X",
                  "column of (page %d, offset %d)" % (pg, off))
        __check__(screen.PAGE_OFFSET_TO_Y[pg, off] == y, "PAGE_OFFSET_TO_Y",
                  "row of (page %d, offset %d)" % (pg, off))
        __check__(screen.ADDR_TO_COORDS[a] == (0, y, x), "ADDR_TO_COORDS",
                  "coordinates of address %d" % a)
        __check__(screen.ADDR_TO_COORDS[a + 0x2000] == (1, y, x),
                  "ADDR_TO_COORDS page 2",
                  "coordinates of address %d" % (a + 0x2000))
__check__(len(screen.ADDR_TO_COORDS) == 15360, "ADDR_TO_COORDS size",
          "ADDR_TO_COORDS has addresses off the screen")
p = __any_int__("p", 0, 31)
o = __any_int__("o", 0, 255)
__check__(screen.SCREEN_HOLES[p, o] == (o % 128 >= 120), "SCREEN_HOLES",
          "a byte is wrongly (not) a screen hole")
'''


def S01(rep, tier):
    rep.explanation = (
        "Abstract interpretation of screen.py: the row address formula for "
        "an unknown row, and the module's tables for every visible byte, "
        "compared with the Apple II memory map.")
    a = Analysis(["transcoder"], IMPORTS, {})
    finish(rep, a, S01_MAIN, 3)
    finish(rep, a, S01_TABLES, 9)


S02_MAIN = PRE + '''
main, aux = arr("main"), arr("aux")
is_aux = __any_bool__() if dhgr else False
bm = bitmap(main.copy(), aux.copy())
p = __any_int__("page", 0, 31)
o = __any_int__("offset", 0, 255)
v = np.uint8(__any_int__("value", 0, 255))
bm.apply(p, o, is_aux, v)
if is_aux:
    aux[p, o] = v
else:
    main[p, o] = v
q = __any_int__("p", 0, 31)
z = __any_int__("z", 0, 255)
__check__(bm.main_memory.page_offset[q, z] == main[q, z],
          "main memory " + MODE,
          "apply() leaves main memory other than with the byte stored")
if dhgr:
    __check__(bm.aux_memory.page_offset[q, z] == aux[q, z],
              "auxiliary memory " + MODE,
              "apply() leaves auxiliary memory other than with the byte "
              "stored")
bn = bitmap(main, aux)
c = __any_int__("c", 0, 127)
__check__(bm.packed[q, c] == bn.packed[q, c], "packed form " + MODE,
          "after apply() the packed form is not the one of the memory")
__check__(bm.packed.shape == bn.packed.shape and
          bm.packed.dtype == bn.packed.dtype, "packed array " + MODE,
          "apply() changes the packed array's type")
'''


def S02(rep, tier):
    rep.explanation = (
        "Abstract interpretation of Bitmap.apply on unknown screen memory, "
        "for any store: an arbitrary packed entry afterwards is compared, "
        "bit by bit, with the entry packed from the updated memory.")
    a = Analysis(["transcoder"], IMPORTS, {})
    finish(rep, a, S02_MAIN.replace("DHGR_MODE", "True"), 4)
    finish(rep, a, S02_MAIN.replace("DHGR_MODE", "False"), 3)


S03_MAIN = PRE + '''
main, aux = arr("main"), arr("aux")
bm = bitmap(main, aux)
is_aux = __any_bool__() if dhgr else False
p = __any_int__("page", 0, 31)
o = 2 * __any_int__("column", 0, 127) + __choose__(2)
b = bm.byte_offset(o, is_aux)
w = bm.mask_and_shift_data(bm.packed[p, o // 2], b)
__check__(int(w) < 2 ** int(bm.MASKED_BITS), "window size " + MODE,
          "the masked representation has more bits than MASKED_BITS")
d = bm.to_dots(int(w), b)
if dhgr:
    if is_aux:
        me, lo, hi = aux[p, o], (main[p, o - 1] if o > 0 else 0), main[p, o]
        first = 14 * o
    else:
        me, lo, hi = main[p, o], aux[p, o], (
            aux[p, o + 1] if o < 255 else 0)
        first = 14 * o + 7
    me, lo, hi = int(me), int(lo), int(hi)
    want = (lo & 0x70) >> 4 | (me & 0x7f) << 3 | (hi & 7) << 10
    __check__(d == want, "dots DHGR",
              "the dots of a byte and its neighbours are wrong")
    n = 10
else:
    me = int(main[p, o])
    lo = int(main[p, o - 1]) if o > 0 else 0
    hi = int(main[p, o + 1]) if o < 255 else 0
    first = 14 * o

    def dot(prev, cur, j):
        if cur & 0x80:
            if j == 0:
                return prev >> 6 & 1
            return cur >> (j - 1) // 2 & 1
        return cur >> j // 2 & 1
    for i in range(21):
        if i < 3:
            e = dot(0, lo, 11 + i)
        elif i < 17:
            e = dot(lo, me, i - 3)
        else:
            e = dot(me, hi, i - 17)
        __check__((d >> i) & 1 == e, "dots HGR",
                  "dot %d of a byte's window is wrong" % i)
    __check__(d < 1 << 21, "no further dots HGR", "extra dots")
    n = 18
__check__(bm.PHASES[b] == (first - 3) % 4, "phase " + MODE,
          "the colour clock phase of byte offset %d is wrong" % b)
__check__(int(bm.MASKED_DOTS) == n, "dots coloured " + MODE,
          "MASKED_DOTS is not the number of dots whose colour window is "
          "known")
__check__(b in bm._byte_offsets(is_aux) and
          bm._byte_offsets(is_aux)[o % 2] == b, "byte offsets " + MODE,
          "_byte_offsets and byte_offset disagree")
'''


def S03(rep, tier):
    rep.explanation = (
        "Abstract interpretation of the packing, masking and dot expansion "
        "on unknown screen memory: each dot of an arbitrary byte's window "
        "is compared with the dot the hardware displays for these bytes.")
    a = Analysis(["transcoder"], IMPORTS, {})
    finish(rep, a, S03_MAIN.replace("DHGR_MODE", "True"), 5)
    finish(rep, a, S03_MAIN.replace("DHGR_MODE", "False"), 6)


TABLE = '''
K, N = (4, 13) if dhgr else (2, 14)
table = __array__("table", (K, 1 << (2 * N)), "uint16")
names = []

class Npz:
    def __init__(self, d):
        self._d = d
        self.files = ["edit_distance"]
    def __getitem__(self, k):
        return {"edit_distance": self._d}[k]
    def __contains__(self, k):
        return k == "edit_distance"
    def __enter__(self):
        return self
    def __exit__(self, *a):
        pass
    def close(self):
        pass

def load(name, *a, **k):
    names.append(name)
    return Npz(table.copy())
numpy.load = load
'''

S04_MAIN = PRE + TABLE + '''
D = cls.edit_distances(pal)
sm, sa, tm, ta = arr("sm"), arr("sa"), arr("tm"), arr("ta")
S, T_ = bitmap(sm.copy(), sa.copy()), bitmap(tm.copy(), ta.copy())
is_aux = __any_bool__() if dhgr else False
p = __any_int__("page", 0, 31)
o = 2 * __any_int__("column", 0, 127) + __choose__(2)
b = cls.byte_offset(o, is_aux)

def win(bm):
    return int(cls.mask_and_shift_data(bm.packed[p, o // 2], b))

def dist(x, y):
    return int(D[b, (x << N) + y])

case = __choose__(3)
if case == 0:
    w = T_.diff_weights(S, is_aux)
    __check__(w.shape == (32, 256), "diff_weights shape " + MODE,
              "diff_weights is not a value per byte")
    __check__(int(w[p, o]) == dist(win(S), win(T_)), "diff_weights " + MODE,
              "diff_weights of a byte is not the table's distance from the "
              "source's window to the target's")
elif case == 1:
    content = np.uint8(__any_int__("content", 0, 127 if dhgr else 255))
    dw = __array__("dw", (256,), "int32", 0, 65535)
    delta = T_.compute_delta_page(p, content, dw, is_aux)
    m2, a2 = tm.copy(), ta.copy()
    if is_aux:
        a2[p, o] = content
    else:
        m2[p, o] = content
    N_ = bitmap(m2, a2)
    __check__(delta.shape == (256,), "compute_delta_page shape " + MODE,
              "compute_delta_page is not a value per offset")
    __check__(int(delta[o]) == dist(win(N_), win(T_)) - int(dw[o]),
              "compute_delta_page " + MODE,
              "the delta of an offset is not the table's distance, to the "
              "target, of the target screen with the content stored there "
              "less the present distance")
else:
    content = np.uint8(__any_int__("content", 0, 127 if dhgr else 255))
    old = S.packed[p, o // 2]
    e = S.byte_pair_difference(b, old, content)
    m2, a2 = sm.copy(), sa.copy()
    if is_aux:
        a2[p, o] = content
    else:
        m2[p, o] = content
    N_ = bitmap(m2, a2)
    __check__(int(e) == dist(win(S), win(N_)),
              "byte_pair_difference " + MODE,
              "byte_pair_difference is not the table's distance between the "
              "windows before and after the store")
S2, T2 = bitmap(sm, sa), bitmap(tm, ta)
q = __any_int__("q", 0, 31)
c = __any_int__("c", 0, 127)
z = __any_int__("z", 0, 255)
for X, Y, n in ((S, S2, "source"), (T_, T2, "target")):
    __check__(X.packed[q, c] == Y.packed[q, c],
              "scoring changes nothing, packed " + n + " " + MODE,
              "scoring a store changes the packed form of the " + n)
    __check__(X.main_memory.page_offset[q, z] ==
              Y.main_memory.page_offset[q, z],
              "scoring changes nothing, memory of " + n + " " + MODE,
              "scoring a store changes the memory of the " + n)
    if dhgr:
        __check__(X.aux_memory.page_offset[q, z] ==
                  Y.aux_memory.page_offset[q, z],
                  "scoring changes nothing, auxiliary memory of " + n,
                  "scoring a store changes the memory of the " + n)
'''


def S04(rep, tier):
    rep.explanation = (
        "Abstract interpretation of diff_weights, compute_delta_page and "
        "byte_pair_difference on unknown screens, stores and distance "
        "tables: the value for an arbitrary byte is compared with the table "
        "entry for the windows of the screens concerned.")
    a = Analysis(["transcoder"], IMPORTS, {})
    finish(rep, a, S04_MAIN.replace("DHGR_MODE", "True"), 10)
    finish(rep, a, S04_MAIN.replace("DHGR_MODE", "False"), 9)


S05_MAIN = '''
import screen
import numpy as np
page = 1 + __choose__(2)
a = __array__("a", (8192,), "uint8")
m = __array__("m", (32, 256), "uint8")
n = __any_int__("n", 0, 8191)
flat = screen.FlatMemoryMap(page, a.copy())
mm = flat.to_memory_map()
__check__(mm.screen_page == page, "screen page kept, from flat", "")
__check__(mm.page_offset.shape == (32, 256), "shape from flat", "")
__check__(mm.page_offset[n // 256, n % 256] == a[n], "bytes from flat",
          "a byte of a flat memory map is elsewhere in the page/offset map")
m1 = screen.MemoryMap(page, m.copy())
f2 = m1.to_flat_memory_map()
__check__(f2.screen_page == page, "screen page kept, to flat", "")
__check__(f2.data.shape == (8192,), "shape to flat", "")
__check__(f2.data[n] == m[n // 256, n % 256], "bytes to flat",
          "a byte of a page/offset map is elsewhere in the flat map")
z = screen.FlatMemoryMap(page).data
__check__(z.shape == (8192,) and int(z[n]) == 0, "new flat map is blank", "")
z = screen.MemoryMap(page).page_offset
__check__(z.shape == (32, 256) and int(z[n // 256, n % 256]) == 0,
          "new map is blank", "")
'''

S05_WRITE = '''
import screen
import numpy as np
page = 1 + __choose__(2)
v = np.uint8(__any_int__("v", 0, 255))
n = __any_int__("n", 0, 8191)
if __choose__(2):
    a = __array__("a", (8192,), "uint8")
    flat = screen.FlatMemoryMap(page, a.copy())
    addr = __any_int__("addr", 0, 65535)
    ok = True
    try:
        flat.write(addr, v)
    except ValueError:
        ok = False
    k = addr - 8192 * page
    __check__(ok == (0 <= k < 8192), "addresses of a flat map",
              "a flat map accepts or refuses a wrong address")
    if ok:
        __check__(int(flat.data[n]) == (int(v) if n == k else int(a[n])),
                  "flat store",
                  "a store to a flat map does not change just its byte")
    else:
        __check__(int(flat.data[n]) == int(a[n]), "refused flat store",
                  "a refused store changes memory")
else:
    m = __array__("m", (32, 256), "uint8")
    mm = screen.MemoryMap(page, m.copy())
    p = __any_int__("p", 0, 31)
    o = __any_int__("o", 0, 255)
    mm.write(32 * page + p, o, v)
    k = 256 * p + o
    r, s = n // 256, n % 256
    __check__(int(mm.page_offset[r, s]) == (
        int(v) if r == p and s == o else int(m[r, s])), "store",
        "a store to a memory map does not change just its byte")
'''

S05_BAD = '''
import screen
import numpy as np
for page in (0, 3, -1):
    for c in (screen.FlatMemoryMap, screen.MemoryMap):
        ok = True
        try:
            c(page)
        except ValueError:
            ok = False
        __check__(not ok, "screen page %d is refused by %s" % (
            page, c.__name__), "there is no screen page %d" % page)
for c, sh in ((screen.FlatMemoryMap, (8191,)),
              (screen.FlatMemoryMap, (32, 256)),
              (screen.MemoryMap, (8192,)), (screen.MemoryMap, (256, 32))):
    ok = True
    try:
        c(1, np.zeros(sh, dtype=np.uint8))
    except ValueError:
        ok = False
    __check__(not ok, "wrong shape %r is refused by %s" % (sh, c.__name__),
              "data of the wrong shape is accepted")
'''


def S05(rep, tier):
    rep.explanation = (
        "Abstract interpretation of FlatMemoryMap and MemoryMap on unknown "
        "contents: an arbitrary byte after each conversion and store.")
    a = Analysis(["transcoder"], IMPORTS, {})
    finish(rep, a, S05_MAIN, 8)
    finish(rep, a, S05_WRITE, 12)
    finish(rep, a, S05_BAD, 22)


D01_READ = PRE + TABLE + '''
pal = [palette.Palette.NTSC, palette.Palette.IIGS][__choose__(2)]
d = cls.edit_distances(pal)
k = __choose__(K)
a = __any_int__("a", 0, (1 << N) - 1)
b = __any_int__("b", 0, (1 << N) - 1)
__check__(d.shape == (K, 1 << (2 * N)), "shape of the matrix " + MODE,
          "the matrix has another shape than the table")
__assume__(a != b)
x = int(d[k, (a << N) + b])
y = int(d[k, (b << N) + a])
__check__(x == y, "symmetric " + MODE,
          "the distance from a to b is not that from b to a")
__check__(x == (int(table[k, (a << N) + b]) + int(table[k, (b << N) + a]))
          & 65535, "entries " + MODE,
          "a distance is not the one of the table")
__check__(len(names) == 1, "one table is read " + MODE, "")
'''

D01_NAMES = PRE + TABLE + '''
import os
import make_data_tables
import colours
out = []

def save(name, *a, **kw):
    out.append((name, sorted(kw), kw.get("edit_distance")))
numpy.savez_compressed = save
numpy.savez = save

def compute(edp, bitmap_cls, nominal):
    want.append((bitmap_cls, nominal, edp))
    return marks[len(want) - 1]

marks = [object() for _ in range(8)]
want = []
make_data_tables.compute_edit_distance = compute
make_data_tables.compute_substitute_costs = lambda p: p
os.mkdir = lambda *a, **k: None
os.makedirs = lambda *a, **k: None
os.path.exists = os.path.isdir = lambda p: False
make_data_tables.main()
read = []
for p in palette.PALETTES:
    for c in (screen.HGRBitmap, screen.DHGRBitmap):
        del names[:]
        if (c is screen.DHGRBitmap) == dhgr:
            c.edit_distances(p)
            __check__(len(names) == 1, "one table is read per palette and "
                      "mode", "")
            hits = [i for i in range(len(out)) if out[i][0] == names[0]]
            __check__(len(hits) == 1, "table of %s %s is written" % (
                c.NAME, p.name), "%s, which the transcoder reads, is "
                "written %d times" % (names[0], len(hits)))
            if hits:
                i = hits[0]
                __check__(out[i][1] == ["edit_distance"],
                          "member name %s %s" % (c.NAME, p.name),
                          "the table is stored under another name")
                __check__(out[i][2] is marks[i], "data saved %s %s" % (
                    c.NAME, p.name), "other data is saved")
                __check__(want[i][2] is palette.PALETTES[p],
                          "palette %s %s" % (c.NAME, p.name),
                          "%s gets the table of another palette" % names[0])
                __check__(want[i][0] is c, "mode %s %s" % (c.NAME, p.name),
                          "%s gets the table of another mode" % names[0])
                __check__(want[i][1] is (
                    colours.DHGRColours if dhgr else colours.HGRColours),
                    "colour set %s %s" % (c.NAME, p.name),
                    "the table is made with another mode's colours")
__check__(len(set(o[0] for o in out)) == len(out) and len(out) == 4,
          "one file per palette and mode", "files overwrite each other")
'''

MDT = IMPORTS + "import make_data_tables, colours, os\n"


def D01(rep, tier):
    rep.explanation = (
        "Abstract interpretation of Bitmap.edit_distances on an unknown "
        "table, and of make_data_tables.main with the computation replaced: "
        "names, members and modes of the files written and read.")
    for m in (True, False):
        a = Analysis(["transcoder"], IMPORTS, {})
        finish(rep, a, D01_READ.replace("DHGR_MODE", str(m)), 3)
        a = Analysis(["transcoder"], MDT, {})
        finish(rep, a, D01_NAMES.replace("DHGR_MODE", str(m)), 8)
