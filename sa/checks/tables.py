"""C03: make_data_tables's distance tables."""

from sa.py.drive import Analysis
from .common import finish

MDT = '''
import numpy as np
import numpy, os
import colormath, colormath.color_diff, colormath.color_conversions
import colormath.color_objects, weighted_levenshtein
import screen, palette, colours, make_data_tables
'''

# Two sets of three-bit (thorough: five-bit) values stand for the masked values of the modes (whose
# number is 2 ** 13 or 2 ** 14): their dots are scattered over the whole word.
# The colour distance and the edit distance are unknown functions: each
# distinct argument gets a result of its own.
MAIN = MDT + '''
BITS = NBITS
seen = {}
calls = []
out = []


def upscaled(c):
    return tuple(c.get_upscaled_value_tuple())


def distance(r, s):
    if r == s:
        return 0.0
    k = (r, s) if r < s else (s, r)
    if k not in seen:
        seen[k] = 20.75 + 4 * len(seen)
    return seen[k]


def delta(a, b, *args, **kw):
    return distance(upscaled(a.rgb), upscaled(b.rgb))


def dam_lev(a, b, insert_costs=None, delete_costs=None,
            substitute_costs=None, transpose_costs=None):
    sub = []
    if len(a) == len(b):
        for i in range(len(a)):
            sub.append((1.0, 1.0) if substitute_costs is None else
                       (float(substitute_costs[ord(a[i]), ord(b[i])]),
                        float(substitute_costs[ord(b[i]), ord(a[i])])))
    ins = insert_costs is not None and all(
        [insert_costs[ord(c)] >= 10000 for c in set(a + b)])
    dele = delete_costs is not None and all(
        [delete_costs[ord(c)] >= 10000 for c in set(a + b)])
    trans = True
    if transpose_costs is not None:
        for i in range(len(a) - 1):
            for s in (a, b):
                if transpose_costs[ord(s[i]), ord(s[i + 1])] != 1:
                    trans = False
    calls.append((a, b, sub, ins and dele, trans))
    return float(len(calls))


def save(name, *a, **kw):
    out.append((name, kw.get("edit_distance")))


colormath.color_diff.delta_e_cie2000 = delta
make_data_tables.delta_e_cie2000 = delta
weighted_levenshtein.dam_lev = dam_lev
make_data_tables.dam_lev = dam_lev
numpy.savez_compressed = save
numpy.savez = save
os.mkdir = lambda *a, **k: None
os.makedirs = lambda *a, **k: None
os.path.exists = os.path.isdir = lambda p: False


def dots(value, offset):
    v = int(value)
    return ((v * 0x9a5b3) ^ (v << 9) ^ (int(offset) * 0x1ab1 * v)) & 0x3ffff


class H(screen.HGRBitmap):
    MASKED_BITS = np.uint64(BITS)

    @classmethod
    def to_dots(cls, masked_val, byte_offset):
        return dots(masked_val, byte_offset)


class D(screen.DHGRBitmap):
    MASKED_BITS = np.uint64(BITS)

    @classmethod
    def to_dots(cls, masked_val, byte_offset):
        return dots(masked_val, byte_offset)


screen.HGRBitmap = H
screen.DHGRBitmap = D
make_data_tables.HGRBitmap = H
make_data_tables.DHGRBitmap = D
make_data_tables.main()


def pixels(cls, n, w, phase):
    res = []
    for i in range(n):
        k = (phase + i) % 4
        x = (w >> i) & 15
        res.append(((x << k) | (x >> (4 - k))) & 15)
    return res


tables = len(out)
__check__(tables == 2 * len(palette.PALETTES), "one table per palette and "
          "mode", "%d tables are written" % tables)
byhgr = 0
byhgrtext = ""
for p in palette.PALETTES:
    rgb = {}
    for c, v in palette.PALETTES[p].RGB.items():
        rgb[c.name] = upscaled(v)
    for cls, names in ((H, colours.HGRColours), (D, colours.DHGRColours)):
        mode = "%s %s" % (cls.NAME, p.name)
        end = "%s_palette_%d_edit_distance.npz" % (cls.NAME, p.value)
        mine = [t for n, t in out if n.endswith("/" + end)]
        __check__(len(mine) == 1, "table of " + mode,
                  "%s is written %d times" % (end, len(mine)))
        table = mine[0]
        ok = table.shape == (len(cls.BYTE_MASKS), 1 << (2 * BITS))
        __check__(ok, "shape of table " + mode, "the table's shape is %r" % (
            table.shape,))
        named = {}
        for c in names:
            named[c.value] = c.name
        hnamed = {}
        for c in colours.HGRColours:
            hnamed[c.value] = c.name
        n = int(cls.MASKED_DOTS)
        bad = {}
        for o in range(len(cls.BYTE_MASKS)):
            px = [pixels(cls, n, dots(v, o), cls.PHASES[o])
                  for v in range(1 << BITS)]
            for i in range(1 << BITS):
                if table[o, (i << BITS) + i] != 0:
                    bad["diagonal"] = "offset %d, value %d" % (o, i)
                for j in range(i):
                    x = int(table[o, (i << BITS) + j])
                    y = int(table[o, (j << BITS) + i])
                    at = "offset %d, values %d and %d" % (o, i, j)
                    if x and y:
                        bad["entries"] = at + ": both are set"
                        continue
                    if not x + y:
                        if px[i] != px[j]:
                            bad["entries"] = at + ": none is set"
                        continue
                    if x + y > len(calls):
                        bad["entries"] = at + ": not an edit distance"
                        continue
                    a, b, sub, insdel, trans = calls[x + y - 1]
                    if not insdel:
                        bad["insertions"] = at
                    if not trans:
                        bad["transpositions"] = at
                    if len(a) != n or len(b) != n:
                        bad["strings"] = at
                        continue
                    fits = False
                    for q, r in ((px[i], px[j]), (px[j], px[i])):
                        same = {}
                        good = True
                        for s, t in ((a, q), (b, r)):
                            for k in range(n):
                                if same.setdefault(s[k], t[k]) != t[k]:
                                    good = False
                        if good and len(set(same.values())) == len(same):
                            fits = True
                            break
                    if not fits:
                        bad["strings"] = at
                        continue
                    for k in range(n):
                        want = int(distance(rgb[named[q[k]]],
                                            rgb[named[r[k]]]))
                        got = sub[k]
                        if got == (want, want):
                            continue
                        wrong = int(distance(rgb[hnamed[q[k]]],
                                             rgb[hnamed[r[k]]]))
                        if cls is D and got == (wrong, wrong):
                            byhgr += 1
                            byhgrtext = "%s for %s" % (
                                named[q[k]] + " " + named[r[k]],
                                hnamed[q[k]] + " " + hnamed[r[k]])
                        else:
                            bad["costs"] = "%s: substituting %s for %s" % (
                                at, named[q[k]], named[r[k]])
        for rule, text in (
                ("diagonal", "a value's distance from itself is not 0"),
                ("entries", "not one edit distance per pair"),
                ("insertions", "inserting and deleting pixels is not ruled "
                 "out"),
                ("transpositions", "transposing pixels does not cost 1"),
                ("strings", "the distance is not that of the two values' "
                 "colours on the screen"),
                ("costs", "a substitution does not cost the two colours' "
                 "distance in this palette")):
            __check__(rule not in bad, rule + " " + mode,
                      text + ": " + bad.get(rule, ""))
__check__(byhgr == 0, "substitution costs DHGR by HGR values",
          "in the DHGR tables, colours are compared as though their numbers "
          "were those of HGR colours: " + byhgrtext)
'''


def C03(rep, tier):
    rep.explanation = (
        "Constant propagation over make_data_tables.main with eight (thorough: "
        "32) values per mode; the perceptual and the edit distance are uninterpreted: "
        "which arguments give each entry of each table.")
    a = Analysis(["transcoder"], MDT, {})
    finish(rep, a, MAIN.replace("NBITS", "5" if tier == "thorough" else "3"),
           34)


