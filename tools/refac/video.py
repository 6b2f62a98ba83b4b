V="V01 V02 V03 V04 V05 V06"
F="transcoder/video.py"
REFACS=[
("v_tick", V, [(F,'''        if ticks >= (self.ticks_per_frame * self.frame_number):
            self.frame_number += 1
            return True
        return False
''','''        due = self.ticks_per_frame * self.frame_number
        if ticks < due:
            return False
        self.frame_number = self.frame_number + 1
        return True
''')]),
("v_banks", V, [(F,'''        if is_aux:
            memory_map = self.aux_memory_map
            update_priority = self.aux_update_priority
        else:
            memory_map = self.memory_map
            update_priority = self.update_priority

''','''        memory_map, update_priority = self._bank(is_aux)

'''),(F,'''    def encode_frame(
''','''    def _bank(self, is_aux: bool):
        """Return (memory map, update priority) for requested bank."""
        if is_aux:
            return self.aux_memory_map, self.aux_update_priority
        return self.memory_map, self.update_priority

    def encode_frame(
''')]),
("v_fourhelper", V, [(F,'''                byte_offset = target_pixelmap.byte_offset(o, is_aux)
                old_packed = target_pixelmap.packed[page, o // 2]

                p = target_pixelmap.byte_pair_difference(
                    byte_offset, old_packed, content)

                # Update priority for the offset we're emitting
                update_priority[page, o] = p

                self.pixelmap.apply(page, o, is_aux, content)
                if p:
                    # This content byte introduced an error, so put back on the
                    # heap in case we can get back to fixing it exactly
                    # during this frame.  Otherwise, we'll get to it later.
                    heapq.heappush(
                        priorities, (-p, random.getrandbits(8), page, o))

                offsets.append(o)
                if len(offsets) == 4:
                    break

            # Pad to 4 if we didn't find enough
            for _ in range(len(offsets), 4):
                offsets.append(offsets[0])
            yield page + 32, content, offsets
''','''                p = self._residual(target_pixelmap, page, o, is_aux, content)
                self.pixelmap.apply(page, o, is_aux, content)

                # Update priority for the offset we're emitting
                update_priority[page, o] = p
                if p:
                    # This content byte introduced an error, so put back on the
                    # heap in case we can get back to fixing it exactly
                    # during this frame.  Otherwise, we'll get to it later.
                    nonce = random.getrandbits(8)
                    heapq.heappush(priorities, (-p, nonce, page, o))

                offsets.append(o)
                if len(offsets) >= 4:
                    break

            # Pad to 4 if we didn't find enough
            offsets.extend([offset] * (4 - len(offsets)))
            yield page + 32, content, offsets
'''),(F,'''    @staticmethod
    def _heapify_priorities(''','''    @staticmethod
    def _residual(target_pixelmap, page, o, is_aux, content):
        byte_offset = target_pixelmap.byte_offset(o, is_aux)
        old_packed = target_pixelmap.packed[page, o // 2]
        return target_pixelmap.byte_pair_difference(
            byte_offset, old_packed, content)

    @staticmethod
    def _heapify_priorities(''')]),
("v_while_pad", V, [(F,'''            for _ in range(len(offsets), 4):
                offsets.append(offsets[0])
''','''            while len(offsets) < 4:
                offsets.append(offset)
'''),(F,'''        # If we run out of things to do, pad forever
        content = target.page_offset[0, 0]
        while True:
            self.pixelmap.apply(0, 0, is_aux, content)
            yield 32, content, [0, 0, 0, 0]
''','''        yield from self._pad_forever(target, is_aux)

    def _pad_forever(self, target, is_aux):
        """If we run out of things to do, pad forever."""
        content = target.page_offset[0, 0]
        offsets = [0] * 4
        while True:
            self.pixelmap.apply(0, 0, is_aux, content)
            yield 32, content, list(offsets)
''')]),
("v_heapify", V, [(F,'''        pages, offsets = update_priority.nonzero()
        priorities = [tuple(data) for data in np.stack((
            -update_priority[pages, offsets],
            # Don't use deterministic order for page, offset.  Otherwise,
            # we get the "venetian blind" effect when filling large blocks of
            # colour.
            np.random.randint(0, 2 ** 8, size=pages.shape[0]),
            pages,
            offsets)
        ).T.tolist()]

        heapq.heapify(priorities)
        return priorities
''','''        pages, offsets = np.nonzero(update_priority)
        weights = -update_priority[pages, offsets]
        nonces = np.random.randint(0, 256, size=len(pages))
        rows = np.stack((weights, nonces, pages, offsets), axis=1).tolist()

        heap = []
        for row in rows:
            heap.append(tuple(row))
        heapq.heapify(heap)
        return heap
''')]),
("v_heapify2", V, [(F,'''        priorities = [tuple(data) for data in np.stack((
            -update_priority[pages, offsets],
            # Don't use deterministic order for page, offset.  Otherwise,
            # we get the "venetian blind" effect when filling large blocks of
            # colour.
            np.random.randint(0, 2 ** 8, size=pages.shape[0]),
            pages,
            offsets)
        ).T.tolist()]
''','''        nonces = np.random.randint(0, 2 ** 8, size=pages.shape[0])
        priorities = list(zip(
            (-update_priority[pages, offsets]).tolist(),
            nonces.tolist(),
            pages.tolist(),
            offsets.tolist()))
''')]),
("v_error", V, [(F,'''        cond = delta_page < 0
        candidate_offsets = self._OFFSETS[cond]
        priorities = delta_page[cond]
''','''        candidate_offsets = np.nonzero(delta_page < 0)[0]
        priorities = delta_page[candidate_offsets]
'''),(F,'''        deltas = [
            (priorities[i], random.getrandbits(8), candidate_offsets[i])
            for i in range(len(candidate_offsets))
        ]
        heapq.heapify(deltas)
''','''        deltas = []
        for priority, candidate in zip(priorities, candidate_offsets):
            deltas.append((priority, random.getrandbits(8), candidate))
        heapq.heapify(deltas)
''')]),
("v_error2", V, [(F,'''        cond = delta_page < 0
        candidate_offsets = self._OFFSETS[cond]
        priorities = delta_page[cond]
''','''        candidate_offsets = self._OFFSETS[delta_page < 0]
        priorities = delta_page[candidate_offsets]
'''),(F,'''        deltas = [
            (priorities[i], random.getrandbits(8), candidate_offsets[i])
            for i in range(len(candidate_offsets))
        ]
        heapq.heapify(deltas)

        while deltas:
            pri, _, offset = heapq.heappop(deltas)
            assert pri < 0
            assert 0 <= offset <= 255

            yield -pri, offset
''','''        deltas = sorted(
            (pri, random.getrandbits(8), off)
            for pri, off in zip(priorities, candidate_offsets))

        for pri, _, offset in deltas:
            assert pri < 0
            assert 0 <= offset <= 255

            yield -pri, offset
''')]),
("v_merge", V, [(F,'''        update_priority[diff_weights == 0] = 0
        update_priority += diff_weights
        assert np.all(update_priority >= 0)

        priorities = self._heapify_priorities(update_priority)
''','''        self._merge(update_priority, diff_weights)

        priorities = self._heapify_priorities(update_priority)
'''),(F,'''    @staticmethod
    def _heapify_priorities(''','''    @staticmethod
    def _merge(update_priority, diff_weights):
        resolved = diff_weights == 0
        update_priority[resolved] = 0
        update_priority += diff_weights
        assert (update_priority >= 0).all()

    @staticmethod
    def _heapify_priorities(''')]),
("v_merge2", V, [(F,'''        update_priority[diff_weights == 0] = 0
        update_priority += diff_weights
''','''        update_priority[:] = np.where(
            diff_weights == 0, 0, update_priority + diff_weights)
''')]),
("v_merge3", V, [(F,'''        update_priority[diff_weights == 0] = 0
        update_priority += diff_weights
''','''        update_priority *= (diff_weights != 0)
        update_priority += diff_weights
''')]),
("v_merge4", V, [(F,'''        update_priority[diff_weights == 0] = 0
        update_priority += diff_weights
''','''        np.add(update_priority, diff_weights, out=update_priority)
        update_priority[np.logical_not(diff_weights)] = 0
''')]),
("v_inline", V, [(F,'''        diff_weights = target_pixelmap.diff_weights(self.pixelmap, is_aux)
        # Don't bother storing into screen holes
        diff_weights[screen.SCREEN_HOLES] = 0
''','''        # Don't bother storing into screen holes
        diff_weights = np.where(
            screen.SCREEN_HOLES, 0,
            target_pixelmap.diff_weights(self.pixelmap, is_aux))
''')]),
("v_cont", V, [(F,'''            if update_priority[page, offset] == 0:
                continue

            offsets = [offset]
''','''            if not update_priority[page, offset]:
                continue

            offsets = [offset]
'''),(F,'''                if update_priority[page, o] == 0:
                    # Someone already resolved this diff.
                    continue

                byte_offset = target_pixelmap.byte_offset(o, is_aux)
                old_packed = target_pixelmap.packed[page, o // 2]
''','''                if not update_priority[page, o]:
                    continue

                byte_offset = target_pixelmap.byte_offset(o, is_aux)
                old_packed = target_pixelmap.packed[page, o >> 1]
'''),(F,'''            # Clear priority for the offset we're emitting
            update_priority[page, offset] = 0
            diff_weights[page, offset] = 0

            # Update memory maps
            self.pixelmap.apply(page, offset, is_aux, content)
''','''            # Update memory maps
            self.pixelmap.apply(page, offset, is_aux, content)

            # Clear priority for the offset we're emitting
            diff_weights[page, offset] = 0
            update_priority[page, offset] = 0
''')]),
("v_whileTrue", V, [(F,'''        while priorities:
            pri, _, page, offset = heapq.heappop(priorities)
''','''        while True:
            if not priorities:
                break
            _, _, page, offset = heapq.heappop(priorities)
''')]),
("v_len", V, [(F,'''        while priorities:
            pri, _, page, offset = heapq.heappop(priorities)
''','''        while len(priorities) > 0:
            entry = heapq.heappop(priorities)
            page, offset = entry[2], entry[3]
''')]),
("v_emitfn", V, [(F,'''            # Need to find 3 more offsets to fill this opcode
            for err, o in self._compute_error(
                    page,
                    content,
                    target_pixelmap,
                    diff_weights,
                    is_aux
            ):
                assert o != offset
''','''            candidates = self._compute_error(
                page, content, target_pixelmap, diff_weights, is_aux)
            # Need to find 3 more offsets to fill this opcode
            while len(offsets) < 4:
                try:
                    err, o = next(candidates)
                except StopIteration:
                    break
                assert o != offset
'''),(F,'''                offsets.append(o)
                if len(offsets) == 4:
                    break

''','''                offsets.append(o)

''')]),
("v_init", V, [(F,'''        self.memory_map = screen.MemoryMap(
            screen_page=1)  # type: screen.MemoryMap
        if self.mode == mode.DHGR:
            self.aux_memory_map = screen.MemoryMap(
                screen_page=1)  # type: screen.MemoryMap

            self.pixelmap''','''        self.memory_map = screen.MemoryMap(
            screen_page=1)  # type: screen.MemoryMap
        self.update_priority = np.zeros((32, 256), dtype=np.int32)
        if self.mode == mode.DHGR:
            self.aux_memory_map = screen.MemoryMap(
                screen_page=1)  # type: screen.MemoryMap
            self.aux_update_priority = np.zeros((32, 256), dtype=np.int32)

            self.pixelmap'''),(F,'''        # Accumulates pending edit weights across frames
        self.update_priority = np.zeros((32, 256), dtype=np.int32)
        if self.mode == mode.DHGR:
            self.aux_update_priority = np.zeros((32, 256), dtype=np.int32)

''','')]),
("v_collect", V, [(F,'''            offsets = [offset]
            content =''','''            extra = []
            content ='''),(F,'''                offsets.append(o)
                if len(offsets) == 4:
                    break

            # Pad to 4 if we didn't find enough
            for _ in range(len(offsets), 4):
                offsets.append(offsets[0])
            yield page + 32, content, offsets
''','''                extra.append(o)
                if len(extra) == 3:
                    break

            # Pad to 4 if we didn't find enough
            padding = [offset] * (3 - len(extra))
            yield page + 32, content, [offset] + extra + padding
''')]),
("v_dicts", V, [(F,'''        self.out_of_work = {True: False, False: False}
''','''        self.out_of_work = dict.fromkeys((True, False), False)
''')]),
]
