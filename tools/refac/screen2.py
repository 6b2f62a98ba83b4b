F="transcoder/screen.py"
C="transcoder/colours.py"
P="transcoder/palette.py"
S="S01 S02 S03 S04 S05 D01"
REFACS=[
("s_base", S, [(F,'''    a = y // 64
    d = y - 64 * a
    b = d // 8
    c = d - 8 * b

    addr = 8192 * (page + 1) + 1024 * c + 128 * b + 40 * a
    return addr
''','''    a, d = divmod(y, 64)
    b, c = divmod(d, 8)

    return 0x2000 * (page + 1) + (c << 10) + (b << 7) + 40 * a
''')]),
("s_populate", S, [(F,'''    for y in range(192):
        for x in range(40):
            y_base = Y_TO_BASE_ADDR[0][y]
            page = y_base >> 8
            offset = y_base - (page << 8) + x

            PAGE_OFFSET_TO_Y[page - 32, offset] = y
            PAGE_OFFSET_TO_X[page - 32, offset] = x

            X_Y_TO_PAGE[y, x] = page - 32
            X_Y_TO_OFFSET[y, x] = offset

            # This (page, offset) is not a screen hole
            SCREEN_HOLES[page - 32, offset] = False

            for p in range(2):
                a = Y_TO_BASE_ADDR[p][y] + x
                ADDR_TO_COORDS[a] = (p, y, x)
''','''    for y, y_base in enumerate(Y_TO_BASE_ADDR[0]):
        page, start = divmod(y_base, 256)
        page -= 32
        end = start + 40

        PAGE_OFFSET_TO_Y[page, start:end] = y
        PAGE_OFFSET_TO_X[page, start:end] = np.arange(40)

        X_Y_TO_PAGE[y, :] = page
        X_Y_TO_OFFSET[y, :] = np.arange(start, end)

        # These are not screen holes
        SCREEN_HOLES[page, start:end] = False

    for p, bases in enumerate(Y_TO_BASE_ADDR):
        for y, base in enumerate(bases):
            for x in range(40):
                ADDR_TO_COORDS[base + x] = (p, y, x)
''')]),
("s_write", S, [(F,'''        self.page_offset[page - self._page_start][offset] = val
''','''        row = page - self._page_start
        self.page_offset[row, offset] = val
'''),(F,'''        if addr < self._addr_start or addr > self._addr_end:
            raise''','''        if not self._addr_start <= addr <= self._addr_end:
            raise''')]),
("s_apply", S+" V02 V04", [(F,'''        byte_offset = self.byte_offset(offset, is_aux)
        packed_offset = offset // 2

        self.packed[page, packed_offset] = self.masked_update(
            byte_offset, self.packed[page, packed_offset], value)
        self._fix_scalar_neighbours(page, packed_offset, byte_offset)

        if is_aux:
            self.aux_memory.write(page, offset, value)
        else:
            self.main_memory.write(page, offset, value)
''','''        memory = self.aux_memory if is_aux else self.main_memory
        memory.write(page, offset, value)

        byte_offset = self.byte_offset(offset, is_aux)
        column = offset >> 1

        packed = self.packed[page, column]
        self.packed[page, column] = self.masked_update(
            byte_offset, packed, value)
        self._fix_scalar_neighbours(page, column, byte_offset)
''')]),
("s_fix", S+" V02", [(F,'''        if byte_offset == 0 and offset > 0:
            self.packed[page, offset - 1] = self._fix_column_left(
                self.packed[page, offset - 1],
                self.packed[page, offset]
            )
        elif byte_offset == (self.SCREEN_BYTES - 1) and offset < 127:
            # Need to also update the 3-bit header of the next column
            self.packed[page, offset + 1] = self._fix_column_right(
                self.packed[page, offset + 1],
                self.packed[page, offset]
            )
''','''        row = self.packed[page]
        if byte_offset == 0:
            if offset > 0:
                row[offset - 1] = self._fix_column_left(
                    row[offset - 1], row[offset])
            return
        if byte_offset == self.SCREEN_BYTES - 1 and offset != 127:
            # Need to also update the 3-bit header of the next column
            row[offset + 1] = self._fix_column_right(
                row[offset + 1], row[offset])
''')]),
("s_fixcol", S+" V02", [(F,'''        column_left &= np.uint64(2 ** (self.HEADER_BITS + self.BODY_BITS) - 1)
        column_left ^= self._make_footer(column)

        return column_left
''','''        keep = (1 << int(self.HEADER_BITS + self.BODY_BITS)) - 1
        column_left &= np.uint64(keep)
        column_left |= self._make_footer(column)

        return column_left
''')]),
("s_pack", S+" V02", [(F,'''        prev_col = np.roll(body, 1, axis=1).astype(np.uint64)
        header = self._make_header(prev_col)
        # Don't leak header across page boundaries
        header[:, 0] = 0

        # Append first 3 bits of next even byte so we can correctly
        # decode the effective colours at the end of the 22-bit tuple
        next_col = np.roll(body, -1, axis=1).astype(np.uint64)
        footer = self._make_footer(next_col)
        # Don't leak footer across page boundaries
        footer[:, -1] = 0

        self.packed = header ^ body ^ footer
''','''        # Don't leak header or footer across page boundaries
        header = np.zeros_like(body)
        header[:, 1:] = self._make_header(body[:, :-1])
        footer = np.zeros_like(body)
        footer[:, :-1] = self._make_footer(body[:, 1:])

        self.packed = body | header | footer
''')]),
("s_pack2", S, [(F,'''        self.packed = header ^ body ^ footer
''','''        self.packed = header + body + footer
'''),(F,'''        header = self._make_header(prev_col)
        # Don't leak header across page boundaries
        header[:, 0] = 0
''','''        header = self._make_header(prev_col)
        # Don't leak header across page boundaries
        header.T[0] = 0
''')]),
("s_diffcommon", S+" V01", [(F,'''        diff = np.ndarray((32, 256), dtype=np.int32)

        offsets = self._byte_offsets(is_aux)

        dists = []
        for o in offsets:
            if content is not None:
                compare_packed = self.masked_update(o, source_packed, content)
                self._fix_array_neighbours(compare_packed, o)
            else:
                compare_packed = source_packed

            # Pixels influenced by byte offset o
            source_pixels = self.mask_and_shift_data(compare_packed, o)
            target_pixels = self.mask_and_shift_data(self.packed, o)

            # Concatenate N-bit source and target into 2N-bit values
            pair = (source_pixels << self.MASKED_BITS) + target_pixels
            dist = self.edit_distances(self.palette)[o][pair].reshape(
                pair.shape)
            dists.append(dist)

        # Interleave even/odd columns
        diff[:, 0::2] = dists[0]
        diff[:, 1::2] = dists[1]

        return diff
''','''        return self._distances(
            source_packed, self.packed, is_aux, content, (32, 256))

    def _distances(self, source_packed, target_packed, is_aux, content, shape):
        diff = np.ndarray(shape, dtype=np.int32)
        table = self.edit_distances(self.palette)

        for i, o in enumerate(self._byte_offsets(is_aux)):
            compare_packed = source_packed
            if content is not None:
                compare_packed = self.masked_update(o, source_packed, content)
                self._fix_array_neighbours(compare_packed, o)

            # Pixels influenced by byte offset o
            source_pixels = self.mask_and_shift_data(compare_packed, o)
            target_pixels = self.mask_and_shift_data(target_packed, o)

            # Concatenate N-bit source and target into 2N-bit values
            pair = (source_pixels << self.MASKED_BITS) | target_pixels
            diff[..., i::2] = table[o][pair]

        return diff
'''),(F,'''        diff = np.ndarray((256,), dtype=np.int32)

        offsets = self._byte_offsets(is_aux)

        dists = []
        for o in offsets:
            if content is not None:
                compare_packed = self.masked_update(o, source_packed, content)
                self._fix_array_neighbours(compare_packed, o)
            else:
                compare_packed = source_packed

            # Pixels influenced by byte offset o
            source_pixels = self.mask_and_shift_data(compare_packed, o)
            target_pixels = self.mask_and_shift_data(target_packed, o)

            # Concatenate N-bit source and target into 2N-bit values
            pair = (source_pixels << self.MASKED_BITS) + target_pixels
            dist = self.edit_distances(self.palette)[o][pair].reshape(
                pair.shape)
            dists.append(dist)

        # Interleave even/odd columns
        diff[0::2] = dists[0]
        diff[1::2] = dists[1]

        return diff
''','''        return self._distances(
            source_packed, target_packed, is_aux, content, (256,))
''')]),
("s_edit", S, [(F,'''        data = "transcoder/data/%s_palette_%d_edit_distance.npz" % (
            cls.NAME, palette_id.value
        )
        dist = np.load(data)['edit_distance']
''','''        with np.load(
                f"transcoder/data/{cls.NAME}_palette_{palette_id.value}"
                "_edit_distance.npz") as data:
            dist = data['edit_distance']
'''),(F,'''        for i in range(dist.shape[0]):
            dist[i, transpose] += dist[i, identity]

        return dist
''','''        for row in dist:
            row[transpose] += row[identity]

        return dist
''')]),
("s_edit2", S, [(F,'''        identity = np.arange(2 ** (2 * cls.MASKED_BITS), dtype=np.uint64)
        # Swap values of form a << N + b to b << N + a
        transpose = (identity >> cls.MASKED_BITS) + (
                (identity & np.uint64(2 ** cls.MASKED_BITS - 1)) <<
                cls.MASKED_BITS)

        for i in range(dist.shape[0]):
            dist[i, transpose] += dist[i, identity]

        return dist
''','''        size = 1 << int(cls.MASKED_BITS)
        for i in range(dist.shape[0]):
            square = dist[i].reshape((size, size))
            square += square.T.copy()

        return dist
''')]),
("s_pair", S+" V01", [(F,'''        old_pixels = self.mask_and_shift_data(old_packed, byte_offset)
        new_pixels = self.mask_and_shift_data(
            self.masked_update(byte_offset, old_packed, content), byte_offset)

        pair = (old_pixels << self.MASKED_BITS) + new_pixels

        return self.edit_distances(self.palette)[byte_offset][pair]
''','''        new_packed = self.masked_update(byte_offset, old_packed, content)
        old_pixels, new_pixels = (
            self.mask_and_shift_data(packed, byte_offset)
            for packed in (old_packed, new_packed))

        pair = (old_pixels << self.MASKED_BITS) ^ new_pixels
        distances = self.edit_distances(self.palette)
        return distances[byte_offset, pair]
''')]),
("s_mask", S, [(F,'''        res = (data & cls.BYTE_MASKS[byte_offset]) >> (
            cls.BYTE_SHIFTS[byte_offset])
        assert np.all(res <= 2 ** cls.MASKED_BITS)
        return res
''','''        mask, shift = cls.BYTE_MASKS[byte_offset], cls.BYTE_SHIFTS[byte_offset]
        return (data & mask) >> shift
''')]),
("s_hgrbody", S, [(F,'''        even = self.main_memory.page_offset[:, 0::2].astype(np.uint64)
        odd = self.main_memory.page_offset[:, 1::2].astype(np.uint64)

        return (
                (even << 3) + ((odd & 0x7f) << 12) + ((odd & 0x80) << 4)
        )
''','''        columns = self.main_memory.page_offset.astype(np.uint64)
        even, odd = columns[:, ::2], columns[:, 1::2]
        data, palette_bit = odd & 0x7f, odd >> 7

        return (even << 3) | (palette_bit << 11) | (data << 12)
''')]),
("s_hdr", S, [(F,'''        return (
                (col & np.uint64(0b1 << 11)) >> np.uint64(9) ^ (
                (col & np.uint64(0b11 << 17)) >> np.uint64(17))
        )
''','''        palette_bit = (col >> np.uint64(11)) & np.uint64(1)
        top_bits = (col >> np.uint64(17)) & np.uint64(0b11)
        return (palette_bit << np.uint64(2)) | top_bits
'''),(F,'''        return (
                       (col & np.uint64(0b1 << 10)) >> np.uint64(10) ^ (
                       (col & np.uint64(0b11 << 3)) >> np.uint64(2))
               ) << np.uint64(19)
''','''        palette_bit = (col >> np.uint64(10)) & np.uint64(1)
        low_bits = (col >> np.uint64(3)) & np.uint64(0b11)
        return (palette_bit << np.uint64(19)) + (low_bits << np.uint64(20))
''')]),
("s_bo", S+" V02", [(F,'''        assert not is_aux
        is_odd = page_offset % 2 == 1

        return 1 if is_odd else 0
''','''        assert not is_aux
        return page_offset & 1
'''),(F,'''        is_odd = page_offset % 2 == 1
        if is_aux:
            if is_odd:
                return 2
            return 0
        else:  # main memory
            if is_odd:
                return 3
            else:
                return 1
''','''        offsets = DHGRBitmap._byte_offsets(is_aux)
        return offsets[page_offset % 2]
''')]),
("s_double", S, [(F,'''        double = (
            # Bit pos 6
                ((int7 & 0x40) << 8) + ((int7 & 0x40) << 7) + (
                (int7 & 0x40) << 6) +
                # Bit pos 5
                ((int7 & 0x20) << 6) + ((int7 & 0x20) << 5) +
                # Bit pos 4
                ((int7 & 0x10) << 5) + ((int7 & 0x10) << 4) +
                # Bit pos 3
                ((int7 & 0x08) << 4) + ((int7 & 0x08) << 3) +
                # Bit pos 2
                ((int7 & 0x04) << 3) + ((int7 & 0x04) << 2) +
                # Bit pos 1
                ((int7 & 0x02) << 2) + ((int7 & 0x02) << 1) +
                # Bit pos 0
                ((int7 & 0x01) << 1) + (int7 & 0x01)
        )

        return double
''','''        double = 0
        for bit in range(7):
            if int7 & (1 << bit):
                double |= 0b11 << (2 * bit)
        if int7 & 0x40:
            double |= 1 << 14

        return double
''')]),
("s_todots", S, [(F,'''        if byte_offset == 0:
            # Offset 0: bbBAaaaaaaaHhh
            b = (masked_val >> 3) & 0xff
            bp = (b & 0x80) >> 7
        else:
            # Offset 1: ffFbbbbbbbBAaa
            bp = (masked_val >> 3) & 0x01
            b = ((masked_val >> 4) & 0x7f) ^ (bp << 7)

        # Mask out current contents in case we are overwriting the extended
        # high bit from previous screen byte
        res &= ~((2 ** 14 - 1) << (3 + bp))
        res ^= cls._double_pixels(b & 0x7f) << (3 + bp)
''','''        body = (masked_val >> 3) & 0xff
        if byte_offset == 0:
            # Offset 0: bbBAaaaaaaaHhh
            b, bp = body & 0x7f, body >> 7
        else:
            # Offset 1: ffFbbbbbbbBAaa
            b, bp = body >> 1, body & 1

        # Mask out current contents in case we are overwriting the extended
        # high bit from previous screen byte
        start = 3 + bp
        res &= (1 << start) - 1
        res |= cls._double_pixels(b) << start
''')]),
("s_upd", S+" V01", [(F,'''        if byte_offset == 0:
            # Mask out 8-bit value where update will go
            masked_value = old_value & (~np.uint64(0xff << 3))

            update = np.uint64(new_value) << np.uint64(3)
            return masked_value ^ update
        else:
            # Mask out 8-bit value where update will go
            masked_value = old_value & (~np.uint64(0xff << 11))

            # shift palette bit into position 0
            shifted_new_value = (
                                        (new_value & 0x7f) << 1) ^ (
                                        (new_value & 0x80) >> 7)
            update = np.uint64(shifted_new_value) << np.uint64(11)
            return masked_value ^ update
''','''        value = int(new_value)
        shift = 3
        if byte_offset:
            shift = 11
            # shift palette bit into position 0
            value = ((value & 0x7f) << 1) | (value >> 7)

        # Mask out 8-bit value where update will go
        mask = np.uint64(0xff << shift)
        return (old_value & ~mask) | np.uint64(value << shift)
'''),(F,'''        masked_value = old_value & (
            ~np.uint64(0x7f << (7 * byte_offset + 3)))

        update = (new_value & np.uint64(0x7f)) << np.uint64(
            7 * byte_offset + 3)
        return masked_value ^ update''','''        shift = np.uint64(7 * byte_offset + 3)
        masked_value = old_value & ~(np.uint64(0x7f) << shift)
        return masked_value | (np.uint64(new_value & 0x7f) << shift)''')]),
("s_delta", S+" V01", [(F,'''        packed_page = self.packed[page, :].reshape(1, -1)

        new_diff = self._diff_weights_page(
            packed_page, packed_page, is_aux, content)

        return new_diff - diff_weights
''','''        packed_page = self.packed[page:page + 1]

        return np.subtract(
            self._diff_weights_page(
                packed_page, packed_page, is_aux, content),
            diff_weights)
''')]),
("s_dhgrbody", S, [(F,'''        aux = (self.aux_memory.page_offset & 0x7f).astype(np.uint64)
        main = (self.main_memory.page_offset & 0x7f).astype(np.uint64)

        return (
                (aux[:, 0::2] << 3) +
                (main[:, 0::2] << 10) +
                (aux[:, 1::2] << 17) +
                (main[:, 1::2] << 24)
        )
''','''        aux = self.aux_memory.page_offset.astype(np.uint64) & 0x7f
        main = self.main_memory.page_offset.astype(np.uint64) & 0x7f

        body = np.zeros((32, 128), dtype=np.uint64)
        columns = (aux[:, 0::2], main[:, 0::2], aux[:, 1::2], main[:, 1::2])
        for i, column in enumerate(columns):
            body |= column << (7 * i + 3)
        return body
''')]),
("s_roll", S, [(F,'''            shifted_left = np.roll(ary, -1, axis=1)
            self._fix_column_left(ary, shifted_left)
''','''            shifted_left = np.concatenate((ary[:, 1:], ary[:, :1]), axis=1)
            self._fix_column_left(ary, shifted_left)
''')]),
("c_ror", "C01 C02 S05 D01", [(C,'''    res = int4
    for _ in range(howmany):
        res = _ror(res)

    return res
''','''    while howmany > 0:
        int4 = _ror(int4)
        howmany -= 1
    return int4
'''),(C,'''    return ((int4 & 0b0111) << 1) ^ ((int4 & 0b1000) >> 3)
''','''    return ((int4 << 1) & 0b1111) | (int4 >> 3)
''')]),
("c_dots", "C01 C02 S05 D01", [(C,'''    res = []

    shifted = dots
    phase = init_phase

    for i in range(num_bits):
        colour = rol(shifted & 0b1111, phase)
        res.append(colours(colour))

        shifted >>= 1
        phase += 1
        if phase == 4:
            phase = 0

    return tuple(res)
''','''    return tuple(
        colours(rol((dots >> i) & 0b1111, (init_phase + i) % 4))
        for i in range(num_bits))
''')]),
("c_vals", "C01 C02 D01", [(C,'''    return tuple(p.value for p in dots_to_nominal_colour_pixels(
        num_bits, dots, colours, init_phase
    ))
''','''    values = []
    for pixel in dots_to_nominal_colour_pixels(
            num_bits, dots, colours, init_phase):
        values.append(pixel.value)
    return tuple(values)
''')]),
("c_pal", "C01 C02", [(P,'''PALETTES = {
    Palette.IIGS: IIGSPalette,
    Palette.NTSC: NTSCPalette
}  #''','''PALETTES = {cls.ID: cls for cls in (IIGSPalette, NTSCPalette)}  #''')]),
]

S0="S01 S02 S03 S04 S05 D01"
pick={"s_base":"S01","s_populate":"S01","s_write":"S01 S02","s_apply":"S02 S03","s_fix":"S02 S03","s_fixcol":"S02 S03 S04","s_pack":"S02 S03","s_pack2":"S02 S03","s_diffcommon":"S04 D01","s_edit":"S04 D01","s_edit2":"S04 D01","s_pair":"S04 D01","s_mask":"S03 S04 D01","s_hgrbody":"S02 S03","s_hdr":"S02 S03 S04","s_bo":"S02 S03 S04","s_double":"S05 D01","s_todots":"S05 D01","s_upd":"S02 S04","s_delta":"S04","s_dhgrbody":"S02 S03","s_roll":"S02 S04"}
REFACS=[(n, pick.get(n,i), e) for n,i,e in REFACS]
