MD="transcoder/make_data_tables.py"
C="C03 D01"
DM='''    for colour1, a in pal.RGB.items():
        alab = colormath.color_conversions.convert_color(
            a, colormath.color_objects.LabColor)
        for colour2, b in pal.RGB.items():
            blab = colormath.color_conversions.convert_color(
                b, colormath.color_objects.LabColor)
            dm[colour1.value, colour2.value] = int(
                colormath.color_diff.delta_e_cie2000(alab, blab))
    return dm
'''
LOOP='''    for i in range(np.uint64(bitrange)):
        pair_base = np.uint64(i) << bits
        for o, ph in enumerate(bitmap_cls.PHASES):
            # Compute this in the outer loop since it's invariant under j
            first_dots = bitmap_cls.to_dots(i, byte_offset=o)
            first_pixels = pixel_string(
                colours.dots_to_nominal_colour_pixel_values(
                    num_dots, first_dots, nominal_colours,
                    init_phase=ph)
            )
'''
INNER='''                pair = pair_base + np.uint64(j)

                second_dots = bitmap_cls.to_dots(j, byte_offset=o)
                second_pixels = pixel_string(
                    colours.dots_to_nominal_colour_pixel_values(
                        num_dots, second_dots, nominal_colours,
                        init_phase=ph)
                )
                edit[o, pair] = edit_distance(
                    edp, first_pixels, second_pixels, error=False)
'''
REFACS=[
("t_half", C, [(MD, DM, '''    lab = {c: colormath.color_conversions.convert_color(
        v, colormath.color_objects.LabColor) for c, v in pal.RGB.items()}
    items = sorted(lab.items(), key=lambda x: x[0].value)
    for n, (colour1, a) in enumerate(items):
        for colour2, b in items[:n + 1]:
            d = int(colormath.color_diff.delta_e_cie2000(a, b))
            dm[colour1.value, colour2.value] = d
            dm[colour2.value, colour1.value] = d
    return dm
''')]),
("t_strings", C, [(MD, '''    cnt = 0
'''+LOOP, '''    def string(value, o, ph):
        return pixel_string(colours.dots_to_nominal_colour_pixel_values(
            num_dots, bitmap_cls.to_dots(value, byte_offset=o),
            nominal_colours, init_phase=ph))

    strings = [[string(i, o, ph) for i in range(int(bitrange))]
               for o, ph in enumerate(bitmap_cls.PHASES)]

    cnt = 0
    for i in range(np.uint64(bitrange)):
        pair_base = np.uint64(i) << bits
        for o, ph in enumerate(bitmap_cls.PHASES):
            first_pixels = strings[o][i]
'''),(MD, INNER, '''                if first_pixels == strings[o][j]:
                    continue
                edit[o, int(pair_base) + j] = edit_distance(
                    edp, first_pixels, strings[o][j], error=False)
''')]),
("t_alphabet", C, [(MD, '"0123456789ABCDEF"', '"abcdefghijklmnop"'),
 (MD, '''    return "".join(pixel_char(p) for p in pixels)''','''    return "".join(map(pixel_char, pixels))''')]),
("t_costs", C, [(MD, '''    for i, c in enumerate(PIXEL_CHARS):
        for j, d in enumerate(PIXEL_CHARS):
            cost = diff_matrix[i, j]
''', '''    for (i, c), (j, d) in itertools.product(
            enumerate(PIXEL_CHARS), repeat=2):
            cost = diff_matrix[i, j]
'''),(MD,"import functools\n","import functools\nimport itertools\n")]),
("t_vector", C, [(MD, '''    for i, c in enumerate(PIXEL_CHARS):
        for j, d in enumerate(PIXEL_CHARS):
            cost = diff_matrix[i, j]
            edp.substitute_costs[(ord(c), ord(d))] = cost
            edp.substitute_costs[(ord(d), ord(c))] = cost
            edp.error_substitute_costs[(ord(c), ord(d))] = 5 * cost
            edp.error_substitute_costs[(ord(d), ord(c))] = 5 * cost
''', '''    codes = np.array([ord(c) for c in PIXEL_CHARS])
    edp.substitute_costs[codes[:, None], codes[None, :]] = diff_matrix
    edp.error_substitute_costs[np.ix_(codes, codes)] = 5 * diff_matrix
''')]),
("t_main", C, [(MD, '''        make_edit_distance(p, edp, screen.HGRBitmap, colours.HGRColours)
        make_edit_distance(p, edp, screen.DHGRBitmap, colours.DHGRColours)
''', '''        for bitmap_cls, nominal in (
                (screen.HGRBitmap, colours.HGRColours),
                (screen.DHGRBitmap, colours.DHGRColours)):
            make_edit_distance(p, edp, bitmap_cls, nominal)
'''),(MD,'''    try:
        os.mkdir(DATA_DIR, mode=0o755)
    except FileExistsError:
        pass
''','''    os.makedirs(DATA_DIR, mode=0o755, exist_ok=True)
''')]),
("t_order", C, [(MD, LOOP, '''    for o, ph in enumerate(bitmap_cls.PHASES):
        for i in range(np.uint64(bitrange)):
            pair_base = np.uint64(i) << bits
            first_dots = bitmap_cls.to_dots(i, byte_offset=o)
            first_pixels = pixel_string(
                colours.dots_to_nominal_colour_pixel_values(
                    num_dots, first_dots, nominal_colours,
                    init_phase=ph)
            )
''')]),
("t_upper", C, [(MD, "for j in range(i):", "for j in range(i + 1, int(bitrange)):")]),
("t_exists", C, [(MD,"""    try:
        os.mkdir(DATA_DIR, mode=0o755)
    except FileExistsError:
        pass
""","""    if not os.path.isdir(DATA_DIR):
        os.mkdir(DATA_DIR, mode=0o755)
""")]),
("t_import", C, [(MD,"import weighted_levenshtein\n","from weighted_levenshtein import dam_lev\n"),
 (MD,"weighted_levenshtein.dam_lev(","dam_lev("),(MD,"colormath.color_diff.delta_e_cie2000(","delta_e_cie2000("),
 (MD,"import colormath.color_diff\n","from colormath.color_diff import delta_e_cie2000\n")]),
("t_init", C, [(MD,"    transpose_costs = np.ones((128, 128), dtype=np.float64)\n",""),
 (MD,"    error_substitute_costs = np.zeros((128, 128), dtype=np.float64)\n","""
    def __init__(self):
        self.transpose_costs = np.ones((128, 128), dtype=np.float64)
        self.substitute_costs = np.zeros((128, 128), dtype=np.float64)
        self.error_substitute_costs = np.zeros_like(self.substitute_costs)
"""),(MD,"    substitute_costs = np.zeros((128, 128), dtype=np.float64)\n\n","\n")]),
("t_dm", C, [(MD,DM,"""    def lab(c):
        return colormath.color_conversions.convert_color(
            c, colormath.color_objects.LabColor)

    dm[:] = 0
    for (c1, a), (c2, b) in itertools.combinations(pal.RGB.items(), 2):
        d = int(colormath.color_diff.delta_e_cie2000(lab(a), lab(b)))
        dm[c1.value, c2.value] = dm[c2.value, c1.value] = d
    return dm
"""),(MD,"import functools\n","import functools\nimport itertools\n")]),
]
