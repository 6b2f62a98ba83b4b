"""Assembles /repo/player from the working tree into a scratch directory and
loads the linked image plus the linker's debug info (symbols, segments, line
table).  Nothing of it is ever run: the image is only decoded."""

import os
import re
import shutil
import subprocess
import tempfile

from sa.report import REPO, AnalysisError


class Player:
    def __init__(self):
        self.mem = bytearray(65536)
        self.loaded = bytearray(65536)
        self.segs = {}    # name -> (start, size)
        self.syms = {}    # label -> address
        self.lines = {}   # address -> "main.s:NNN"
        self.labels_at = {}
        self.committed_dbg = ""
        self.fresh_dbg = ""

    def where(self, addr):
        lab = None
        best = -1
        for n, v in self.syms.items():
            if best < v <= addr and addr - v < 0x200 and n.startswith("op_"):
                best, lab = v, n
        ln = self.lines.get(addr)
        return "$%04X%s%s" % (addr, " (%s)" % ln if ln else "",
                              " near %s" % lab if lab else "")


def _fields(rest):
    out = {}
    for m in re.finditer(r'(\w+)=("[^"]*"|[^,]*)', rest):
        out[m.group(1)] = m.group(2).strip('"')
    return out


def parse_dbg(text):
    segs, syms, spans, lines, files = {}, [], {}, [], {}
    for line in text.splitlines():
        if "\t" not in line:
            continue
        kind, rest = line.split("\t", 1)
        f = _fields(rest)
        if kind == "seg":
            segs[f["id"]] = f
        elif kind == "sym":
            syms.append(f)
        elif kind == "span":
            spans[f["id"]] = f
        elif kind == "line":
            lines.append(f)
        elif kind == "file":
            files[f["id"]] = f
    return segs, syms, spans, lines, files


_cache = {}


def load():
    if "p" in _cache:
        return _cache["p"]
    src = os.path.join(REPO, "player")
    if not os.path.isdir(src):
        raise AnalysisError("no player directory in %s" % REPO)
    tmp = tempfile.mkdtemp(prefix="sa_player_")
    try:
        dst = os.path.join(tmp, "player")
        shutil.copytree(src, dst)
        for n in os.listdir(dst):
            if n.endswith((".o", ".lst", ".dsk", ".map")) or n in (
                    "iivision", "iivision.dbg"):
                os.remove(os.path.join(dst, n))
        r = subprocess.run(
            ["make", "iivision", "CC65_BIN=/usr/bin",
             "CC65_HOME=/usr/share/cc65"], cwd=dst,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        binf = os.path.join(dst, "iivision")
        dbgf = os.path.join(dst, "iivision.dbg")
        if not os.path.exists(binf) or not os.path.exists(dbgf):
            raise AnalysisError("the player does not assemble: %s" %
                                r.stdout[-2000:])
        image = open(binf, "rb").read()
        dbg = open(dbgf).read()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    p = Player()
    p.fresh_dbg = dbg
    cpath = os.path.join(src, "iivision.dbg")
    if os.path.exists(cpath):
        p.committed_dbg = open(cpath).read()
    segs, syms, spans, lines, files = parse_dbg(dbg)
    for s in segs.values():
        start, size = int(s["start"], 0), int(s["size"], 0)
        if "ooffs" not in s or size == 0 or s["name"] == "EXEHDR":
            continue
        off = int(s["ooffs"])
        if start + size > 65536 or off + size > len(image):
            raise AnalysisError("segment %s does not fit" % s["name"])
        p.mem[start:start + size] = image[off:off + size]
        p.loaded[start:start + size] = b"\1" * size
        p.segs[s["name"]] = (start, size)
    for f in syms:
        if f.get("type") == "lab" and "val" in f:
            p.syms[f["name"]] = int(f["val"], 0)
    seg_start = {i: int(s["start"], 0) for i, s in segs.items()}
    for f in lines:
        fn = os.path.basename(files.get(f["file"], {}).get("name", "?"))
        for sid in f.get("span", "").split("+"):
            sp = spans.get(sid)
            if not sp:
                continue
            a = seg_start[sp["seg"]] + int(sp["start"])
            # macro bodies (type 2) are the precise ones
            if a not in p.lines or f.get("type") == "2":
                p.lines[a] = "%s:%s" % (fn, f["line"])
    if not p.segs:
        raise AnalysisError("no segments in the linker's debug info")
    _cache["p"] = p
    return p
