"""Abstract program states: frames, copy-on-write heap, facts."""

import dis
import types

from sa.report import AnalysisError
from . import terms
from .terms import T, Facts, Infeasible


class A:
    """Abstract scalar: python/numpy type + mathematical value (host const or
    term)."""
    __slots__ = ("ty", "m")

    def __init__(self, ty, m):
        self.ty = ty
        self.m = m

    def __eq__(self, o):
        return isinstance(o, A) and o.ty == self.ty and (
            o.m is self.m or (type(o.m) is type(self.m) and o.m == self.m))

    def __hash__(self):
        return hash((self.ty, self.m))

    def __repr__(self):
        return "<%s %r>" % (self.ty, self.m)


class Ref:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("ref", self.id))

    def __repr__(self):
        return "@%d" % self.id


class NF:
    """Native (modelled) function"""
    __slots__ = ("name", "fn", "bind", "cls")

    def __init__(self, name, fn, bind=True):
        self.name, self.fn, self.bind = name, fn, bind

    def __repr__(self):
        return "<native %s>" % self.name


class BM:
    """Bound method"""
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_

    def __eq__(self, o):
        return isinstance(o, BM) and o.fn == self.fn and o.self == self.self

    def __hash__(self):
        return hash((self.fn, self.self))

    def __repr__(self):
        return "<bm %r of %r>" % (self.fn, self.self)


class Choice:
    """One of several values, selected by a symbolic key.
    options: tuple of (key tuple, value)"""
    __slots__ = ("key", "options")

    def __init__(self, key, options):
        self.key, self.options = key, options

    def __eq__(self, o):
        return isinstance(o, Choice) and o.key == self.key and \
            o.options == self.options

    def __hash__(self):
        return hash((self.key, len(self.options)))


class ARange:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, ARange) and (self.lo, self.hi, self.step) == (
            o.lo, o.hi, o.step)

    def __hash__(self):
        return hash((self.lo, self.hi, self.step))


class Table:
    """Finite function from key tuples to ints (for 'tbl' terms)."""
    _cache = {}

    def __init__(self, items):
        self.items = items
        self.map = dict(items)
        vs = [v for _, v in items]
        self.lo, self.hi = min(vs), max(vs)
        self.tname = "table%d" % len(Table._cache)

    @classmethod
    def get(cls, items):
        t = cls._cache.get(items)
        if t is None:
            t = cls._cache[items] = Table(items)
        return t


# ---- heap objects --------------------------------------------------------

class H:
    __slots__ = ("owner",)


class HList(H):
    __slots__ = ("items", "abs")

    def __init__(self, items, abs=None):
        self.items, self.abs = items, abs

    def copy(self):
        return HList(list(self.items) if self.items is not None else None,
                     self.abs)


class HDict(H):
    __slots__ = ("d", "default")

    def __init__(self, d=None, default=None):
        self.d = d if d is not None else {}
        self.default = default

    def copy(self):
        return HDict(dict(self.d), self.default)


class HSet(H):
    """abs: the contents are unknown"""
    __slots__ = ("_d", "abs")

    def __init__(self, d=None, abs_=False):
        self._d = d if d is not None else {}
        self.abs = abs_

    @property
    def d(self):
        if self.abs:
            raise AnalysisError("contents of an abstract set")
        return self._d

    @d.setter
    def d(self, v):
        self._d = v
        self.abs = False

    def copy(self):
        return HSet(dict(self._d), self.abs)


class HInst(H):
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}

    def copy(self):
        return HInst(self.cls, dict(self.attrs))


class HClass(H):
    __slots__ = ("name", "bases", "mro", "attrs", "module", "meta")

    def __init__(self, name, bases, mro, attrs, module="?", meta=None):
        self.name, self.bases, self.mro = name, bases, mro
        self.attrs, self.module = attrs, module
        self.meta = meta if meta is not None else {}

    def copy(self):
        return HClass(self.name, self.bases, self.mro, dict(self.attrs),
                      self.module, dict(self.meta))


class HModule(H):
    __slots__ = ("name", "attrs")

    def __init__(self, name, attrs=None):
        self.name = name
        self.attrs = attrs if attrs is not None else {}

    def copy(self):
        return HModule(self.name, dict(self.attrs))


class HFunc(H):
    __slots__ = ("code", "globals", "defaults", "kwdefaults", "closure",
                 "attrs", "qualname")

    def __init__(self, code, globals, defaults, kwdefaults, closure, attrs,
                 qualname):
        self.code, self.globals = code, globals
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.closure, self.attrs, self.qualname = closure, attrs, qualname

    def copy(self):
        return HFunc(self.code, self.globals, self.defaults, self.kwdefaults,
                     self.closure, dict(self.attrs), self.qualname)


class HCell(H):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def copy(self):
        return HCell(self.v)


class HGen(H):
    __slots__ = ("frame", "state", "qualname")

    def __init__(self, frame, state="new", qualname="?"):
        self.frame, self.state, self.qualname = frame, state, qualname

    def copy(self):
        return HGen(self.frame.copy() if self.frame else None, self.state,
                    self.qualname)


class HIter(H):
    __slots__ = ("kind", "data", "pos")

    def __init__(self, kind, data, pos=0):
        self.kind, self.data, self.pos = kind, data, pos

    def copy(self):
        return HIter(self.kind, self.data, self.pos)


class HBox(H):
    """wrapper objects: classmethod, staticmethod, property, lru"""
    __slots__ = ("kind", "args")

    def __init__(self, kind, args):
        self.kind, self.args = kind, args

    def copy(self):
        return HBox(self.kind, self.args)


class HStore(H):
    """Array storage: immutable content expression, replaced on write"""
    __slots__ = ("content", "shape", "dtype")

    def __init__(self, content, shape, dtype):
        self.content, self.shape, self.dtype = content, shape, dtype

    def copy(self):
        return HStore(self.content, self.shape, self.dtype)


class HArr(H):
    """ndarray: a view (index map) of a storage object"""
    __slots__ = ("store", "view", "shape", "dtype")

    def __init__(self, store, view, shape, dtype):
        self.store, self.view = store, view
        self.shape, self.dtype = shape, dtype

    def copy(self):
        return HArr(self.store, self.view, self.shape, self.dtype)


# ---- code ------------------------------------------------------------------

class CodeInfo:
    _cache = {}

    def __init__(self, code):
        self.code = code
        self.qualname = code.co_qualname
        ins = [i for i in dis.get_instructions(code)]
        self.ins = []
        off2idx = {}
        for i in ins:
            off2idx[i.offset] = len(self.ins)
            self.ins.append(i)
        self.off2idx = off2idx
        self.ops = []
        line = code.co_firstlineno
        for i in self.ins:
            if i.positions.lineno is not None:
                line = i.positions.lineno
            tgt = None
            if i.opname in _JUMPS:
                tgt = off2idx[i.argval]
            self.ops.append((i.opname, i.arg, i.argval, tgt, line))
        self.exc = []
        for e in dis._parse_exception_table(code):
            a = off2idx[e.start]
            # end offset may fall on cache entries
            b = max(idx for off, idx in off2idx.items() if off < e.end) + 1
            self.exc.append((a, b, off2idx[e.target], e.depth, e.lasti))
        self.filename = code.co_filename
        self.flags = code.co_flags
        self._live = None
        self.loop_end = {}
        for i, (name, arg, argval, tgt, _) in enumerate(self.ops):
            if tgt is not None and tgt <= i:
                self.loop_end[tgt] = i

    def live(self, ip, cur):
        """local variables whose values may still be read by a frame that
        continues at ip, or at a handler of the instruction at cur; None:
        all of them"""
        if self._live is None:
            self._live = self._liveness()
        if self._live is False or ip >= len(self._live):
            return None
        r = self._live[ip]
        for a, b, tgt, _, _ in self.exc:
            if a <= cur < b:
                r = r | self._live[tgt]
        return r

    def _liveness(self):
        c = self.code
        if set(c.co_names) & {"locals", "vars", "dir", "eval", "exec",
                              "super"} or not c.co_flags & 2:
            return False
        cells = frozenset(c.co_cellvars) | frozenset(c.co_freevars)
        n = len(self.ops)
        live = [cells] * (n + 1)
        changed = True
        while changed:
            changed = False
            for i in range(n - 1, -1, -1):
                name, arg, argval, tgt, _ = self.ops[i]
                if name in _ENDS:
                    out = cells
                else:
                    out = live[i + 1]
                if tgt is not None:
                    out = out | live[tgt]
                if name == "STORE_FAST":
                    out = out - {argval}
                elif "FAST" in name:
                    out = out | {argval}
                for a, b, t, _, _ in self.exc:
                    if a <= i < b:
                        out = out | live[t]
                if out != live[i]:
                    live[i] = out | cells
                    changed = True
        return live[:n]

    @classmethod
    def get(cls, code):
        c = cls._cache.get(code)
        if c is None or c.code is not code:
            # code objects compare by value; the same value is the same code
            if c is None:
                c = cls._cache[code] = CodeInfo(code)
        return c


_ENDS = {"RETURN_VALUE", "RETURN_CONST", "RAISE_VARARGS", "RERAISE",
         "JUMP_FORWARD", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT"}
_JUMPS = {dis.opname[o] for o in list(dis.hasjrel) + list(dis.hasjabs)}


class Frame:
    __slots__ = ("ci", "ip", "cur", "stack", "loc", "glob", "ns", "ret",
                 "gen", "resume", "func", "kwnames", "lastfork")

    def __init__(self, ci, glob, loc, ns=None, ret=None):
        self.ci, self.ip, self.cur = ci, 0, 0
        self.stack = ()
        self.loc, self.glob, self.ns, self.ret = loc, glob, ns, ret
        self.gen = None
        self.resume = None
        self.func = None
        self.kwnames = ()
        self.lastfork = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.ci, f.ip, f.cur, f.stack = self.ci, self.ip, self.cur, self.stack
        f.loc = dict(self.loc)
        f.glob, f.ns, f.ret = self.glob, self.ns, self.ret
        f.gen, f.resume, f.func = self.gen, self.resume, self.func
        f.kwnames = self.kwnames
        f.lastfork = dict(self.lastfork) if self.lastfork else None
        return f

    def where(self):
        return "%s:%d (%s)" % (self.ci.filename.split("/")[-1],
                               self.ci.ops[self.cur][4], self.ci.qualname)


class ForkNeeded(Exception):
    def __init__(self, options):
        self.options = options


class PyRaise(Exception):
    """An interpreted exception"""
    def __init__(self, value):
        self.value = value


class NeedModulus(Exception):
    def __init__(self, key, m):
        self.key, self.m = key, m


class State:
    def __init__(self, base):
        self.base = base
        self.heap = {}
        self.frames = []
        self.facts = Facts()
        self.facts0 = None   # facts before the decisions of this step
        self.script = ()
        self.cursor = 0
        self.token = object()
        self.next = [max(base, default=0) + 1]
        self.roots = {}
        self.nforks = 0
        self.result = None
        self.trail = ()
        self.muts = 0
        self.origin = None   # the loop head entry this state comes from

    def copy(self):
        s = State.__new__(State)
        s.base = self.base
        s.heap = dict(self.heap)
        s.frames = [f.copy() for f in self.frames]
        s.facts = self.facts.copy()
        s.facts0 = None
        s.script = self.script
        s.cursor = 0
        self.token = object()
        s.token = object()
        s.next = self.next
        s.roots = dict(self.roots)
        s.nforks = self.nforks
        s.result = self.result
        s.trail = self.trail
        s.origin = self.origin
        s.muts = 0
        return s

    # heap
    def get(self, ref):
        o = self.heap.get(ref.id)
        if o is None:
            o = self.base[ref.id]
        return o

    def mut(self, ref):
        self.muts += 1
        o = self.heap.get(ref.id)
        if o is None:
            o = self.base[ref.id].copy()
        elif o.owner is self.token:
            return o
        else:
            o = o.copy()
        o.owner = self.token
        self.heap[ref.id] = o
        return o

    def new(self, o):
        i = self.next[0]
        self.next[0] = i + 1
        o.owner = self.token
        self.heap[i] = o
        return Ref(i)

    # decisions
    def decide(self, t):
        """truth of a bool term; forks if undecided"""
        if not isinstance(t, T):
            return bool(t)
        k = self.facts.known(t)
        if k is not None:
            return k
        v = self.choose_raw(("cond", t), (True, False))
        if self.facts0 is None:
            self.facts0 = self.facts.copy()
        self.facts.assume(t, v)
        return v

    def choose_raw(self, what, options):
        if self.cursor < len(self.script):
            v = self.script[self.cursor]
            self.cursor += 1
            return v
        if len(options) == 1:
            return options[0]
        raise ForkNeeded(options)

    def choose(self, options):
        return options[self.choose_raw(("choice",), tuple(
            range(len(options))))] if len(options) > 1 else options[0]

    def sym(self, name, lo=-terms.INF, hi=terms.INF, sort="int"):
        t = terms.sym(name, sort)
        if lo != -terms.INF or hi != terms.INF:
            self.facts.iv[t] = (lo, hi, 1, 0)
        return t

    def concretize(self, t, limit=64):
        """fork over all values of an int term with a small range"""
        c = self.facts.const(t)
        if c is not None:
            return c
        lo, hi = self.facts.rng(t)
        if hi - lo >= limit:
            return None
        m, r = self.facts.cong(t)
        vals = [v for v in range(int(lo), int(hi) + 1)
                if m <= 1 or v % m == r]
        vals = [v for v in vals if self.facts.known(
            terms.t_eq0(terms.sub(t, v))) is not False]
        if not vals:
            raise Infeasible()
        v = vals[self.choose_raw(("val", t), tuple(range(len(vals))))] \
            if len(vals) > 1 else vals[0]
        if self.facts0 is None:
            self.facts0 = self.facts.copy()
        self.facts.assume(terms.t_eq0(terms.sub(t, v)), True)
        return v


def all_cases(vm, st, fn, limit=4096):
    """fn on copies of st, once per combination of the decisions it takes:
    list of (state, result); the result is None where fn raised"""
    out, work = [], [()]
    while work:
        script = work.pop()
        s = st.copy()
        s.script, s.cursor = script, 0
        try:
            r = fn(s)
        except ForkNeeded as e:
            work += [script + (o,) for o in reversed(e.options)]
            if len(out) + len(work) > limit:
                return [(st, None)]
            continue
        except Infeasible:
            continue
        except PyRaise:
            r = None
        out.append((s, r))
    return out
