"""Properties of the transcoder."""
A = "abstract interpretation of the Python byte code"
NOTE = ("Decides the property for every value of the symbolic inputs over the "
        "program's actual byte code, assuming the modelled behaviour of the "
        "standard library and numpy (sa/py/npmodel.py, sa/py/libs.py). ")
T = "transcoder/"
CO, PA, SC, VI, OP, MV, MD, AU, FG, ST, MC, MN = [T + f + ".py" for f in (
    "colours", "palette", "screen", "video", "opcodes", "movie",
    "make_data_tables", "audio", "frame_grabber", "symbol_table", "machine",
    "main")]

PROPS = [
dict(id="C01", title="Nominal colours are the phase-rotated four-dot windows",
 statement="For any dots, number of dots, initial phase (default 1) and either colour set, dots_to_nominal_colour_pixels and dots_to_nominal_colour_pixel_values return exactly one entry per dot, in order: the colour of the four dots starting there, rotated left by the colour clock phase at that dot. rol and ror rotate a four-bit value by any number of places from 0 to 4.",
 over=["inputs"], q="all dot patterns, phases, lengths and both colour sets",
 why="Tests sample a few dot patterns; the rotation must be right for every window and phase.",
 files=[CO], mech=[("dots_to_nominal_colour_pixel_values, rol, ror", CO)], tech=A, note=NOTE),
dict(id="C02", title="Colour and palette definitions are those of the Apple II and bmp2dhr",
 statement="Both colour sets name every four-dot pattern with the Apple II colour of that pattern (the HGR values being the DHGR ones rotated by one dot), and each palette is registered under its bmp2dhr number with the bmp2dhr RGB value for each of the sixteen colours.",
 over=["programs"], q="all sixteen colours of both sets and all palettes",
 why="Tests check no colour table entry; a swapped entry shows only as wrong colours on screen.",
 files=[CO, PA], mech=[("HGRColours, DHGRColours", CO), ("PALETTES", PA)], tech="constant propagation over the Python byte code, with rules on the resulting tables", note=NOTE),
dict(id="C03", title="Distance tables hold colour edit distances of pixel strings",
 statement="make_data_tables.main writes a table per palette and mode whose entry for byte offset o and masked values i, j (one of the two orders; 0 in the other and for i = j) is the Damerau-Levenshtein distance of the values' MASKED_DOTS colours at that offset's phase: insertions and deletions ruled out, transpositions at 1, a substitution at the two colours' CIEDE2000 difference in that palette, rounded down.",
 over=["inputs"], q="all pairs of masked values, offsets, modes and palettes",
 why="No test covers make_data_tables; a wrong entry shows only as a poorer picture.",
 files=[MD, CO, PA], mech=[("compute_edit_distance, compute_diff_matrix", MD)], tech="constant propagation over the Python byte code, the colour and edit distances being uninterpreted", note=NOTE + "Analysed with 8 (thorough: 32) masked values with scattered dots per mode. One known finding: DHGR substitution costs. "),
dict(id="X02", title="The encoder's byte layout is the one the player consumes",
 statement="Every opcode, the stream header and the end marker serialise to exactly these bytes: a player opcode is its jump address (high byte first), content and four offsets (seven bytes); an acknowledgement is its address, the memory bank steering byte ($54 main, $55 auxiliary) and a fill byte; the header is six fill bytes and the video mode; the end marker is just its address.",
 over=["inputs", "programs"], q="all opcodes, contents, offsets, modes and memory banks",
 why="Tests never check the bytes of any opcode against the player's format.",
 files=[OP, MC, "player/main.s"], mech=[("Opcode.emit_data/emit_command, _op_cmd_data", OP), ("header/ack parsing", "player/main.s")], tech=A, note=NOTE + "What the player does with these bytes is decided by the P properties. "),
dict(id="S01", title="Screen address tables follow the Apple II memory map",
 statement="y_to_base_addr gives the hardware base address of every row on both screen pages, and the derived tables (addresses by row, page and offset by column and row and back, coordinates by address) agree with it for every visible byte. ADDR_TO_COORDS has visible addresses only, and SCREEN_HOLES marks exactly the offsets that are not displayed ($78-$7F and $F8-$FF of each page).",
 over=["inputs"], q="all rows, columns, pages and offsets",
 why="Tests check a few addresses; the map is irregular in every row.",
 files=[SC], mech=[("y_to_base_addr and module tables", SC)], tech=A, note=NOTE),
dict(id="S02", title="Storing a byte keeps the packed screen equal to the packing of memory",
 statement="For HGR and DHGR bitmaps with any contents, apply() of any byte value at any page, offset and bank changes exactly that byte of memory, and afterwards the packed representation is what constructing a bitmap from the updated memory would give.",
 over=["inputs", "histories"], q="all screen contents, pages, offsets, banks and byte values",
 why="Tests apply a handful of bytes; header and footer bits of neighbours depend on position and old contents.",
 files=[SC], mech=[("Bitmap.apply, _fix_scalar_neighbours", SC), ("Bitmap.pack", SC)], tech=A, note=NOTE),
dict(id="S03", title="A byte's masked window expands to the dots the hardware displays",
 statement="For any screen contents and any byte, the masked window of the packed screen expands (to_dots) to exactly the dots that the Apple II displays for that byte and its neighbours in the same memory row (HGR palette bit delay included), PHASES gives the colour clock phase of the window's first coloured dot, MASKED_DOTS counts the dots whose colour window is known, and byte_offset and _byte_offsets agree.",
 over=["inputs"], q="all screen contents, byte offsets, banks and both modes",
 why="Tests sample a few bytes; the window depends on position, bank and neighbours' palette bits.",
 files=[SC], mech=[("mask_and_shift_data, to_dots, PHASES", SC)], tech=A, note=NOTE + "Bytes are adjacent in memory order (offset by offset), as in the code. "),
dict(id="S04", title="Difference scores are the table distances of the screens concerned",
 statement="For any source and target screens, distance table and store: diff_weights of a byte is the table's distance from the source's window to the target's; compute_delta_page gives for every offset the distance to the target after storing the content there, less the present one; byte_pair_difference is the distance caused by the store. Computing them changes neither bitmap.",
 over=["inputs"], q="all screens, tables, pages, contents, banks and both modes",
 why="Tests compare a few hand-made screens; masking and table indices depend on the byte position and contents.",
 files=[SC], mech=[("diff_weights, compute_delta_page, byte_pair_difference", SC)], tech=A, note=NOTE),
dict(id="S05", title="Screen memory containers convert and store byte for byte",
 statement="Converting between flat and page/offset screen memory preserves the screen page and the place of every byte; a store changes exactly the addressed byte; flat memory refuses, without any change, exactly the addresses outside its screen page; new memory is blank; and screen pages other than 1 and 2 or data of the wrong shape are refused.",
 over=["inputs"], q="all contents, addresses, values and both pages",
 why="Tests cover single stores; boundaries and second page are not tested.",
 files=[SC], mech=[("FlatMemoryMap, MemoryMap", SC)], tech=A, note=NOTE),
dict(id="D01", title="Distances read back are symmetric and from the right table file",
 statement="edit_distances of a mode and palette reads exactly the file and member that make_data_tables.main writes for that mode, palette and colour set; no two tables share a file; and the matrix it returns gives the same distance from a to b as from b to a, namely the entry stored for that pair in whichever order it was stored.",
 over=["inputs", "configurations"], q="all table contents, pairs of windows, byte offsets, palettes and modes",
 why="Tests never write the tables and read them back; symmetry needs the whole matrix.",
 files=[SC, MD], mech=[("Bitmap.edit_distances", SC), ("main", MD)], tech=A, note=NOTE),
dict(id="X03", title="The byte stream is framed as the player reads it",
 statement="For any opcodes, the encoder's byte stream keeps every opcode's bytes unaltered and in order and puts a four-byte acknowledge (with any fill byte) as the last four bytes of every 2048-byte frame, so that no opcode crosses a frame end. In DHGR mode the acknowledges select auxiliary and main memory in turn, starting with auxiliary; in HGR mode always main memory.",
 over=["inputs", "histories"], q="all opcode contents and streams of any number of frames, both modes",
 why="No test covers movie.py; an error of one byte at a frame end makes the player jump into garbage minutes into a film.",
 files=[MV, OP, MC], mech=[("Movie.emit_stream, _emit_bytes", MV)], tech=A, note=NOTE),
dict(id="X04", title="Every opcode is encoded for the bank selected when it is played",
 statement="Each opcode the movie encoder yields stores a change of the newest video frame to encode, and of the memory bank (main or auxiliary) that the player has selected at that place of the stream; after every bank switch or new frame it is taken from a new encoding, and the changes of one encoding are emitted in order with none lost or repeated. The opcode is the one of the audio sample and of the store's memory page.",
 over=["histories"], q="all sequences of samples, frames and bank switches in DHGR mode, and whole streams of three 2 KB frames in both modes",
 why="No test covers movie.py; the bank is switched in one generator and used in another, between frames.",
 files=[MV, OP], mech=[("Movie.encode", MV), ("Movie.emit_stream", MV)], tech=A + " to a fixpoint", note=NOTE),
dict(id="T01", title="Audio samples become duty cycles in proportion, within range",
 statement="For any 16-bit audio data, channel count and rates, the audio is de-interleaved, mixed to mono, resampled from the file's rate to the playback rate, and every sample emitted is the resampled one times the normalization, divided by 1024, truncated towards zero and cut to -15..16, in order with none lost. Without a given normalization it is 16384 over the greater of the absolute 0.5 and 99.5 percentiles of the mono audio; silence is encoded as 0.",
 over=["inputs"], q="all sample values, channel counts, rates and normalizations",
 why="No test covers audio.py.",
 files=[AU], mech=[("Audio._decode, _normalization, audio_stream", AU)], tech=A, note=NOTE + "The media libraries' own mixing and resampling are not decided. "),
dict(id="T02", title="The stream stops at its limit or end and is padded to whole frames",
 statement="The encoder's byte stream ends after the last opcode, or before the first opcode that would start at or beyond max_bytes_out (no limit if None or 0); then come the terminate opcode and zero bytes up to a multiple of 2048 bytes, at least some and at most one frame of them, and nothing else.",
 over=["inputs", "histories"], q="all limits, all places of the end within a frame, both modes",
 why="No test covers movie.py; the end may fall on any byte of a frame.",
 files=[MV], mech=[("Movie.emit_stream", MV)], tech=A, note=NOTE),
dict(id="T03", title="Video frames are taken on time for the audio playback rate",
 statement="The movie encoder emits exactly one opcode per audio sample and stops when audio or video ends. Video frame n (from 0) is taken at the first sample t (from 1) with t >= n times the samples per video frame (audio bitrate over the file's frame rate), one frame per sample at most; frames whose number is a multiple of every_n_video_frames are encoded, the others are skipped.",
 over=["histories", "inputs"], q="all samples and frame intervals, streams of any length",
 why="No test covers movie.py; audio and video drifting apart shows only over a long film.",
 files=[MV, VI, FG], mech=[("Movie.encode", MV), ("Video.tick, frame_rate", VI)], tech=A + " to a fixpoint", note=NOTE),
dict(id="T04", title="The command line's options take effect in the file written",
 statement="main.py writes one file: the --output name, or the input's with its extension (if any) replaced by .a2m. Input, --audio_normalization, --audio_bitrate, --every_n_video_frames, --video_mode (HGR or DHGR), --palette and --max_output_mb (in units of 1048576 bytes, 0 for no limit) take effect in it; without them the mode is DHGR, the palette NTSC, the bitrate 14700, every second frame is encoded, and the length is not limited. Invalid modes, palettes and options are refused.",
 over=["configurations"], q="each option alone and together, all modes and palettes",
 why="No test covers main.py.",
 files=[MN, MV, FG], mech=[("parser, main", MN), ("Movie.__init__", MV)], tech="constant propagation over the Python byte code of the whole program", note=NOTE + "Option values are representatives of each class. "),
dict(id="F01", title="Every video frame is delivered once and in order, or its failure is",
 statement="FileFrameGrabber.frames yields one pair for every frame of the video, in order: the memory map (screen page 1) of the converted main memory and, in DHGR mode, of the auxiliary memory (None in HGR mode), every byte as converted. If the video or a conversion fails at some frame, the frames before it are yielded and then an exception is raised; it never waits for ever or ends silently, and an abandoned iteration does not keep the program alive.",
 over=["schedules", "faults", "inputs"], q="videos of up to 25 frames, failures at any stage, both modes, extreme schedules of the decoding thread",
 why="Tests cover one helper only; the decoding thread's failures and schedules are not tested.",
 files=[FG], mech=[("FileFrameGrabber.frames", FG)], tech=A, note=NOTE + "Threads are modelled as running either as early or as late as possible. "),
dict(id="F02", title="Frames are converted once, for their own mode, palette and film",
 statement="Each frame is resized to 280x192 and converted by bmp2dhr with the video mode (hgr, or dhgr with A), the palette's number (P0, P5) and dither D9; the bitmap is removed. A later run uses the converted files without converting again, converts a frame again if one of its files is missing, and never uses the conversions of another mode, palette or film (path without extension).",
 over=["histories", "configurations"], q="all modes, palettes and cache states of short films",
 why="Tests cover the directory name of three paths only.",
 files=[FG], mech=[("_output_dir, _palette_arg, _hgr_decode, _dhgr_decode", FG)], tech=A, note=NOTE),
dict(id="V01", title="The video encoder never aborts or stores outside the visible screen",
 statement="For any sequence of target images, each abandoned after any number of operations, in HGR and DHGR mode and both memory banks, encode_frame never raises an exception and never ends; every operation it yields has a page from $20 to $3F, a content byte (below $80 in DHGR mode) and offsets from 0 to 255 of which none lies in a screen hole.",
 over=["histories", "inputs"], q="frame sequences and abandonments of any length, any images and any non-negative differences",
 why="Tests of Video compute differences only; assertions about screen holes and pending changes depend on the whole history.",
 files=[VI], mech=[("Video.encode_frame, _index_changes, _compute_error", VI)], tech=A + " to a fixpoint",
 note=NOTE + "Difference scores are any scores of the form S04 establishes; accumulated differences are assumed not to overflow 32 bits. "),
dict(id="V02", title="The encoder's screen model follows the stores it emits",
 statement="With every operation (padding included), the encoder's model of the player's screen gets exactly the stores of the operation: the content byte at each of its offsets of its page in the memory bank being encoded, and none else.",
 over=["histories", "inputs"], q="frame sequences and abandonments of any length, any images and any non-negative differences",
 why="A store missing in the model shows only as a wrong byte that is never corrected, some frames later.",
 files=[VI], mech=[("Video._index_changes", VI)], tech=A + " to a fixpoint",
 note=NOTE + "What apply() does to the model is S02. Difference scores are any scores of the form S04 establishes. "),
dict(id="V03", title="Every operation has four offsets and the target image's byte",
 statement="Every operation that encode_frame yields has exactly four offsets, and its content byte is the target image's byte, of the memory bank being encoded, at the operation's page and first offset.",
 over=["histories", "inputs"], q="frame sequences and abandonments of any length, any images and any non-negative differences",
 why="No test runs the encoder.",
 files=[VI], mech=[("Video._index_changes", VI)], tech=A + " to a fixpoint",
 note=NOTE + "Difference scores are any scores of the form S04 establishes. "),
dict(id="V04", title="No pending change is lost, repeated or made needlessly",
 statement="While a place of the bank being encoded differs from the target image, every operation starts with such a place and stores the target's byte there; each is done once, also after an earlier frame was abandoned. Further offsets are those of other places with pending differences on that page that the same content byte brings closer to the target; a difference it leaves there remains to be made good. With nothing left, operations repeat the target's byte at page $20, offset 0 four times. Pending changes of one bank are unaffected by the other's.",
 over=["histories", "inputs"], q="two consecutive frames, the first abandoned after one or two operations, with at most two symbolic places and any symbolic differences, in all combinations of banks",
 why="No test runs the encoder; what is pending depends on the frames before.",
 files=[VI], mech=[("Video._index_changes, _heapify_priorities, _compute_error", VI)], tech=A,
 note=NOTE + "Bounded to two frames and two differing places (values symbolic). "),
dict(id="V05", title="Differences accumulate over frames and the largest goes first",
 statement="The priority of a place is the sum of its differences over the frames since it was last stored to (starting, after a store that left a difference, from that difference); it is dropped when a new frame finds no difference. In each frame, places are taken in order of decreasing priority as at the start of the frame.",
 over=["histories", "inputs"], q="two consecutive frames, the first abandoned after one or two operations, with at most two symbolic places and any symbolic differences, in all combinations of banks",
 why="No test runs the encoder; priorities depend on the frames before.",
 files=[VI], mech=[("Video._index_changes, _heapify_priorities", VI)], tech=A,
 note=NOTE + "Bounded to two frames and two differing places (values symbolic). "),
dict(id="V06", title="An operation's three further stores are the best available",
 statement="The three offsets that an operation has beside its first are the pending places of its page which its content byte improves most, in any order (fewer if fewer are improved); places without a pending change, or which the byte would not improve, are not stored to.",
 over=["inputs"], q="five other places with any improvements by the content byte, one of them not pending; both modes and banks",
 why="No test runs the encoder.",
 files=[VI], mech=[("Video._index_changes, _compute_error", VI)], tech=A,
 note=NOTE + "Bounded to five candidate places. "),
]
NOT_APPLICABLE = []
