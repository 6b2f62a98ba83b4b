"""C-series: nominal colours and palettes."""

from sa.py.drive import Analysis
from .common import finish

C01_MAIN = '''
import colours
cls = [colours.HGRColours, colours.DHGRColours][__choose__(2)]
ph = __choose__(5)
n = [10, 13, 18, 28][__choose__(4)]
dots = __any_int__("dots", 0, (1 << 34) - 1)
if ph == 4:
    ph = 1
    px = colours.dots_to_nominal_colour_pixels(n, dots, cls)
    pv = colours.dots_to_nominal_colour_pixel_values(n, dots, cls)
else:
    px = colours.dots_to_nominal_colour_pixels(n, dots, cls, ph)
    pv = colours.dots_to_nominal_colour_pixel_values(
        n, dots, cls, init_phase=ph)
__check__(len(px) == n and len(pv) == n, "one colour per dot",
          "not one colour per dot")
for i in range(n):
    k = (ph + i) % 4
    w = (dots >> i) & 15
    want = ((w << k) | (w >> (4 - k))) & 15
    __check__(pv[i] == want, "colour value",
              "colour value of dot %d is not its four-dot window rotated by "
              "the phase at that dot" % i)
    __check__(px[i].value == want, "colour",
              "colour of dot %d is not its four-dot window rotated by the "
              "phase at that dot" % i)
    __check__(isinstance(px[i], cls), "colour set",
              "a colour of another set is returned")
'''

ROT = '''
import colours
x = __any_int__("x", 0, 15)
n = __choose__(5)
want = ((x << n) | (x >> (4 - n))) & 15
__check__(colours.rol(x, n) == want, "rotate left %d" % n,
          "rol by %d is wrong" % n)
want = ((x >> n) | (x << (4 - n))) & 15
__check__(colours.ror(x, n) == want, "rotate right %d" % n,
          "ror by %d is wrong" % n)
'''

C02_MAIN = '''
import colours, palette
NAMES = ["BLACK", "MAGENTA", "BROWN", "ORANGE", "DARK_GREEN", "GREY1",
         "GREEN", "YELLOW", "DARK_BLUE", "VIOLET", "GREY2", "PINK",
         "MED_BLUE", "LIGHT_BLUE", "AQUA", "WHITE"]
# DHGR: the four dots of each colour, first dot on the screen in bit 0, at a
# colour clock boundary (Apple //e Technical Note #3)
DOTS = {"BLACK": 0, "MAGENTA": 8, "BROWN": 4, "ORANGE": 12, "DARK_GREEN": 2,
        "GREY1": 10, "GREEN": 6, "YELLOW": 14, "DARK_BLUE": 1, "VIOLET": 9,
        "GREY2": 5, "PINK": 13, "MED_BLUE": 3, "LIGHT_BLUE": 11, "AQUA": 7,
        "WHITE": 15}
for cls in (colours.HGRColours, colours.DHGRColours):
    __check__(sorted([c.name for c in cls]) == sorted(NAMES),
              "sixteen colours " + cls.__name__,
              "%s does not have exactly the sixteen Apple colours"
              % cls.__name__)
    __check__(sorted([c.value for c in cls]) == list(range(16)),
              "every dot pattern has a colour " + cls.__name__,
              "%s does not name every four-dot pattern" % cls.__name__)
for n in NAMES:
    d = colours.DHGRColours[n].value
    h = colours.HGRColours[n].value
    __check__(d == DOTS[n], "DHGR pattern " + n,
              "DHGR colour %s has dot pattern %d" % (n, d))
    __check__(h == ((d << 1) | (d >> 3)) & 15, "HGR phase " + n,
              "HGR pattern of %s is not the DHGR one shifted by one dot" % n)

def up(c):
    return c.get_upscaled_value_tuple()

# RGB values of bmp2dhr's palettes 0 (kegs32) and 5 (NTSC)
BMP2DHR = {'IIGS': {'AQUA': (0, 255, 153),
          'BLACK': (0, 0, 0),
          'BROWN': (136, 85, 34),
          'DARK_BLUE': (0, 0, 153),
          'DARK_GREEN': (0, 119, 0),
          'GREEN': (0, 221, 0),
          'GREY1': (85, 85, 85),
          'GREY2': (170, 170, 170),
          'LIGHT_BLUE': (102, 170, 255),
          'MAGENTA': (221, 0, 51),
          'MED_BLUE': (34, 34, 255),
          'ORANGE': (255, 102, 0),
          'PINK': (255, 153, 136),
          'VIOLET': (221, 0, 221),
          'WHITE': (255, 255, 255),
          'YELLOW': (255, 255, 0)},
 'NTSC': {'AQUA': (93, 248, 133),
          'BLACK': (0, 0, 0),
          'BROWN': (99, 77, 0),
          'DARK_BLUE': (32, 54, 212),
          'DARK_GREEN': (51, 111, 0),
          'GREEN': (67, 200, 0),
          'GREY1': (126, 126, 126),
          'GREY2': (126, 126, 126),
          'LIGHT_BLUE': (158, 172, 255),
          'MAGENTA': (148, 12, 125),
          'MED_BLUE': (7, 168, 225),
          'ORANGE': (249, 86, 29),
          'PINK': (255, 129, 236),
          'VIOLET': (188, 55, 255),
          'WHITE': (255, 255, 255),
          'YELLOW': (221, 206, 23)}}

IDS = {"IIGS": 0, "NTSC": 5}
__check__(set(p.name for p in palette.PALETTES) == set(IDS),
          "every palette is available", "PALETTES has other entries")
for pid, cls in palette.PALETTES.items():
    n = pid.name
    __check__(cls.ID is pid, "palette is registered under its id " + n,
              "PALETTES[%s] has another id" % n)
    __check__(pid.value == IDS[n], "bmp2dhr palette number " + n,
              "palette %s is number %r" % (n, pid.value))
    rgb = cls.RGB
    __check__(set(k.name for k in rgb) == set(NAMES) and len(rgb) == 16,
              "palette complete " + n,
              "palette %s does not define every colour" % n)
    for k in rgb:
        __check__(isinstance(k, colours.HGRColours),
                  "palette keys " + n,
                  "palette %s is not keyed by HGR colours" % n)
    vals = {}
    for k, c in rgb.items():
        t = up(c)
        __check__(0 <= min(t) and max(t) <= 255, "RGB range " + n,
                  "palette %s colour %s has a component outside 0..255" % (
                  n, k.name))
        for k2, t2 in vals.items():
            if {k.name, k2} == {"GREY1", "GREY2"}:
                continue
            __check__(t != t2, "palette colours differ " + n,
                      "palette %s: %s and %s are the same colour" % (
                      n, k.name, k2))
        vals[k.name] = t
        __check__(t == BMP2DHR[n][k.name], "bmp2dhr RGB %s %s" % (n, k.name),
                  "palette %s: %s is %r, bmp2dhr uses %r" % (
                  n, k.name, t, BMP2DHR[n][k.name]))
    __check__(vals["BLACK"] == (0, 0, 0), "black " + n,
              "palette %s: black is %r" % (n, vals["BLACK"]))
    __check__(vals["WHITE"] == (255, 255, 255), "white " + n,
              "palette %s: white is %r" % (n, vals["WHITE"]))
    for g in ("GREY1", "GREY2"):
        r = vals[g]
        __check__(r[0] == r[1] and r[1] == r[2], "grey " + n,
                  "palette %s: %s is not grey" % (n, g))
    for k, (i, j) in {"MAGENTA": (0, 1), "BROWN": (0, 2), "ORANGE": (0, 2),
                      "DARK_GREEN": (1, 0), "GREEN": (1, 2),
                      "YELLOW": (0, 2), "DARK_BLUE": (2, 0),
                      "VIOLET": (2, 1), "PINK": (0, 1),
                      "MED_BLUE": (2, 0), "LIGHT_BLUE": (2, 0),
                      "AQUA": (1, 0)}.items():
        t = vals[k]
        __check__(t[i] > t[j], "hue %s %s" % (n, k),
                  "palette %s: %s is %r, not that hue" % (n, k, t))
'''


def C01(rep, tier):
    rep.explanation = (
        "Abstract interpretation of colours.py with unknown dots: every "
        "colour of the result is compared, bit by bit, with the rotated "
        "four-dot window.")
    a = Analysis(["transcoder"], "import colours\n", {})
    finish(rep, a, C01_MAIN, 4)
    finish(rep, a, ROT, 14)


def C02(rep, tier):
    rep.explanation = (
        "Constant propagation through colours.py and palette.py; rules over "
        "the resulting colour tables.")
    a = Analysis(["transcoder"], "import colours, palette\n", {})
    finish(rep, a, C02_MAIN, 60)
