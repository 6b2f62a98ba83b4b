"""Merging of abstract states at loop heads.

A state is split into a skeleton (frames, heap shape, discrete constants) and
leaves (numbers, unknown strings, array contents, abstract lists).  States with
equal skeletons are compared; an arriving state that is an instance of a stored
one is dropped, otherwise both are generalised: differing leaves become fresh
symbols, equal differences between leaves are kept, and facts survive when both
states imply them.  Intervals are widened to thresholds."""

import types
from math import gcd

from . import terms
from .terms import T, Infeasible, Facts
from .state import (A, Ref, NF, BM, Choice, ARange, HList, HDict, HSet, HInst,
                    HClass, HModule, HFunc, HCell, HGen, HIter, HBox, HStore,
                    HArr, CodeInfo, Frame, State)
from .containers import AbsList
from .interp import Unmodelled, SuperV, _Null, _Handling, mkA

INF = terms.INF
THRESH = sorted([0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 191,
                 192, 255, 256, 279, 280, 559, 560, 1023, 1024, 2047, 2048,
                 8191, 8192, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 53,
                 2 ** 63 - 1])
THRESH = sorted(set([-x for x in THRESH] + THRESH))


# leaves that count elements
UNBOUNDED = ("list.len", "iter.pos")


def computed(k):
    """a set element or dictionary key that is not a constant"""
    if isinstance(k, (T, A)):
        return True
    return isinstance(k, tuple) and any(computed(x) for x in k)


def up(v):
    for t in THRESH:
        if v <= t:
            return t
    return INF


def down(v):
    for t in reversed(THRESH):
        if v >= t:
            return t
    return -INF


def oup(v):
    """widened upper bound of a difference"""
    for t in (-1, 0, 1):
        if v <= t:
            return t
    return INF


_FN = {}


def fnames(t):
    """names of array symbols in a term"""
    if not isinstance(t, T):
        return frozenset()
    r = _FN.get(t)
    if r is None:
        s = set()
        if t.op in ("sel", "nz") and isinstance(t.args[0], str):
            s.add(t.args[0])

        def walk(x):
            if isinstance(x, T):
                s.update(fnames(x))
            elif isinstance(x, tuple):
                for y in x:
                    walk(y)
            elif hasattr(x, "kids"):
                s.update(content_names(x))
        for a in t.args:
            walk(a)
        r = _FN[t] = frozenset(s)
    return r


def content_names(c, seen=None):
    from .npmodel import C, CAtom, CNz
    out = set()
    st = [c]
    seen = set()
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, C):
            if type(x).__name__ in ("CAtom", "CNz"):
                out.add(x.name)
            st.extend(x.key())
        elif isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T):
            out |= fnames(x)
        elif isinstance(x, A):
            st.append(x.m)
    return out


class Walk:
    """One canonical traversal of a state; with `repl` it rebuilds the state
    with other leaves."""

    def __init__(self, vm, st, repl=None):
        self.vm, self.st = vm, st
        self.sk = []
        self.leaves = []
        self.kinds = []
        self.names = []
        self.shapes = {}
        self.ids = {}
        self.queue = []
        self.repl = repl
        self.name = "?"
        self.heap = {}

    def run(self):
        st = self.st
        frames = []
        for f in st.frames:
            frames.append(self.frame(f))
        roots = {}
        for k in sorted(st.roots):
            self.name = "root." + k
            self.sk.append(k)
            roots[k] = self.val(st.roots[k])
        for i in sorted(st.heap):
            if i in st.base:
                self.sk.append(("m", i))
                self.ids[i] = len(self.ids)
                self.queue.append(Ref(i))
        q = 0
        while q < len(self.queue):
            r = self.queue[q]
            q += 1
            self.heap[r.id] = self.obj(st.get(r))
        self.frames, self.roots = frames, roots
        return self

    def leaf(self, kind, v, name=None):
        f = self.st.facts
        name = name or self.name
        if isinstance(v, T):
            v = f.n(v)
        if isinstance(v, T) and kind == "n":
            c = f.const(v)
            if c is not None:
                v = c
        m = self.vm.moduli.get(name) if kind == "n" else None
        if m:
            if isinstance(v, T):
                mm, r = f.cong(v)
                self.sk.append(("mod", r % m if mm % m == 0 else None))
            else:
                self.sk.append(("mod", v % m))
        self.sk.append(kind)
        i = len(self.leaves)
        self.leaves.append(v)
        self.kinds.append(kind)
        self.names.append(name)
        if self.repl is not None:
            return self.repl[i]
        return v

    def val(self, v):
        sk = self.sk
        if v is None or v is True or v is False:
            sk.append(v)
            return v
        t = type(v)
        if t is int:
            return mkA("int", self.leaf("n", v))
        if t is float:
            sk.append("float")
            return mkA("float", self.leaf("f", v))
        if t is str or t is bytes:
            sk.append(v)
            return v
        if t is Ref:
            return self.ref(v)
        if t is A:
            m = v.m
            if isinstance(m, T):
                m = self.st.facts.n(m)
            if v.ty == "int":
                return mkA("int", self.leaf("n", m))
            if v.ty == "float":
                sk.append("float")
                return mkA("float", self.leaf("f", m))
            if not isinstance(m, T) and not isinstance(m, (int, float)) or \
                    isinstance(m, bool):
                sk.append(("A", v.ty, m))
                return v
            sk.append(("A", v.ty))
            if isinstance(m, T):
                k = {"int": "n", "float": "f", "bool": "b"}.get(m.sort, "s")
            else:
                k = "n" if isinstance(m, int) else "f"
            return A(v.ty, self.leaf(k, m))
        if t is tuple:
            sk.append(("t", len(v)))
            return tuple([self.val(x) for x in v])
        if isinstance(v, T):
            v = self.st.facts.n(v)
            if not isinstance(v, T):
                return self.val(v)
            k = {"int": "n", "float": "f", "bool": "b"}.get(v.sort, "s")
            return self.leaf(k, v)
        if t is BM:
            sk.append("bm")
            return BM(self.val(v.fn), self.val(v.self))
        if t is NF:
            sk.append(("nf", v.name))
            return v
        if t is Choice:
            sk.append(("choice", len(v.options), len(v.key)))
            key = []
            for x in v.key:
                key.append(self.leaf("n", x))
            sk.append(tuple(k for k, _ in v.options))
            return Choice(tuple(key), tuple((k, self.val(x))
                                            for k, x in v.options))
        if t is ARange:
            sk.append("arange")
            return ARange(self.val(v.lo), self.val(v.hi), self.val(v.step))
        if t is slice:
            sk.append("slice")
            return slice(self.val(v.start), self.val(v.stop),
                         self.val(v.step))
        if t is SuperV:
            sk.append(("super", v.isclass))
            return SuperV(self.val(v.cls), self.val(v.obj), v.isclass)
        if t is _Handling:
            sk.append("handling")
            return _Handling(self.val(v.exc))
        if t is list:
            sk.append(("l", len(v)))
            return [self.val(x) for x in v]
        if t is dict:
            ks = list(v)
            sk.append(("d", tuple(map(str, ks))))
            return {k: self.val(v[k]) for k in ks}
        # code objects, ranges, functions: by identity or equality
        try:
            hash(v)
        except TypeError:
            raise Unmodelled("value %r at a loop head" % (v,))
        sk.append(v)
        return v

    def ref(self, r):
        i = r.id
        n = self.ids.get(i)
        if n is None:
            if i not in self.st.heap:
                self.sk.append(("b", i))
                return r
            n = self.ids[i] = len(self.ids)
            self.queue.append(r)
        self.sk.append(("r", n))
        return r

    def frame(self, f):
        sk = self.sk
        g = Frame.__new__(Frame)
        g.ci, g.ip, g.cur = f.ci, f.ip, f.ip
        sk.append(("F", f.ci, f.ip))
        q = f.ci.qualname
        self.name = q
        g.stack = tuple([self.val(x) for x in f.stack])
        loc = {}
        live = f.ci.live(f.ip, f.cur)
        for k in sorted(f.loc):
            if live is not None and k not in live:
                continue
            self.name = q + "." + k
            sk.append(k)
            loc[k] = self.val(f.loc[k])
        g.loc = loc
        self.name = q
        g.glob, g.ns = f.glob, f.ns
        self.val(f.glob)
        self.val(f.ns)
        g.ret = self.ret(f.ret)
        g.gen = f.gen
        self.val(f.gen)
        g.resume = f.resume
        if f.resume is not None:
            sk.append(f.resume[0])
            if len(f.resume) > 1:
                if f.resume[0] in ("for", "send"):
                    sk.append(f.resume[1])
                else:
                    g.resume = (f.resume[0],) + tuple(
                        self.val(x) for x in f.resume[1:])
        g.func = f.func
        self.val(f.func)
        g.kwnames = f.kwnames
        sk.append(f.kwnames)
        # heads at which states were joined before
        g.lastfork = {t: (-1, 5000) for t, v in (f.lastfork or {}).items()
                      if v[0] == -1}
        return g

    def ret(self, r):
        if r is None:
            self.sk.append(None)
            return None
        self.sk.append(("ret", r[0]))
        out = [r[0]]
        for x in r[1:]:
            if isinstance(x, types.FunctionType):
                self.sk.append(x)
                out.append(x)
            elif isinstance(x, tuple) and x and x[0] in (
                    "chain", "init", "drop", "truth", "not", "native",
                    "const", "class", "discard", "thread"):
                out.append(self.ret(x))
            else:
                out.append(self.val(x))
        return tuple(out)

    def keyed(self, d):
        for k in d:
            self.key(k)

    def key(self, k):
        if isinstance(k, T):
            raise Unmodelled("dictionary with a computed key at a loop head")
        if isinstance(k, Ref):
            self.ref(k)
        elif isinstance(k, tuple):
            self.sk.append(("kt", len(k)))
            for x in k:
                self.key(x)
        else:
            self.sk.append(k)

    def obj(self, o):
        sk = self.sk
        t = type(o)
        sk.append(t.__name__)
        if t is HList:
            if type(o.abs) is AbsList:
                a = self.leaf("a", o.abs.with_n(0))
                self.name = "list.len"
                n = HList(None, a.with_n(self.leaf("n", o.abs.n)))
            elif o.abs is not None:
                n = HList(None, self.leaf("a", o.abs))
            else:
                sk.append(len(o.items))
                nm = self.name
                self.name = "item"
                n = HList([self.val(x) for x in o.items])
        elif t is HDict:
            sk.append(len(o.d))
            d = {}
            for k, (kk, v) in o.d.items():
                self.key(k)
                self.name = "dict[%r]" % (k,) if isinstance(
                    k, (str, int, bool)) else "dict"
                d[k] = (kk if not isinstance(kk, (A,)) else self.val(kk),
                        self.val(v))
            n = HDict(d, self.val(o.default))
        elif t is HSet:
            if o.abs or any(computed(k) for k in o.d):
                sk.append("fuzzy")
                n = HSet(None, True)
            else:
                sk.append(len(o.d))
                for k in o.d:
                    self.key(k)
                n = HSet(dict(o.d))
        elif t is HInst:
            c = self.val(o.cls)
            try:
                cn = self.st.get(o.cls).name
            except Exception:
                cn = "?"
            at = {}
            for k in sorted(o.attrs):
                sk.append(k)
                self.name = "%s.%s" % (cn, k)
                at[k] = self.val(o.attrs[k])
            n = HInst(c, at)
        elif t is HModule:
            sk.append(o.name)
            at = {}
            for k in sorted(o.attrs):
                sk.append(k)
                self.name = "%s.%s" % (o.name, k)
                at[k] = self.val(o.attrs[k])
            n = HModule(o.name, at)
        elif t is HClass:
            at = {}
            sk.append(o.name)
            for b in o.mro:
                self.val(b)
            for k in sorted(o.attrs):
                sk.append(k)
                self.name = "%s.%s" % (o.name, k)
                at[k] = self.val(o.attrs[k])
            for k in sorted(o.meta, key=str):
                self.val(o.meta[k])
            n = HClass(o.name, o.bases, o.mro, at, o.module, dict(o.meta))
        elif t is HFunc:
            sk.append(o.code)
            self.name = o.qualname
            n = HFunc(o.code, o.globals, self.val(o.defaults),
                      {k: self.val(o.kwdefaults[k])
                       for k in sorted(o.kwdefaults or {})}
                      if o.kwdefaults else o.kwdefaults,
                      self.val(o.closure),
                      {k: self.val(o.attrs[k]) for k in sorted(o.attrs)}
                      if o.attrs else o.attrs, o.qualname)
            self.val(o.globals)
        elif t is HCell:
            self.name = "cell"
            n = HCell(self.val(o.v))
        elif t is HGen:
            sk.append(o.state)
            n = HGen(self.frame(o.frame) if o.frame is not None else None,
                     o.state, o.qualname)
        elif t is HIter:
            sk.append(o.kind)
            if o.kind in ("seq", "list"):
                sk.append(o.pos)
                pos = o.pos
            else:
                self.name = "iter.pos"
                pos = self.leaf("n", o.pos)
            n = HIter(o.kind, o.data if isinstance(o.data, range) else
                      self.val(o.data), pos)
            if isinstance(o.data, range):
                sk.append(o.data)
        elif t is HBox:
            sk.append(o.kind)
            n = HBox(o.kind, self.val(o.args))
        elif t is HStore:
            sk.append(o.dtype)
            self.shapes[len(self.leaves)] = o.shape, o.dtype
            c = o.content
            if self.repl is None:
                from .npmodel import norm_content
                c = norm_content(self.st.facts, c)
            n = HStore(self.leaf("c", c),
                       tuple(self.dim(x) for x in o.shape), o.dtype)
        elif t is HArr:
            sk.append(o.dtype)
            self.name = "array"
            n = HArr(self.val(o.store), self.view(o.view),
                     tuple(self.dim(x) for x in o.shape), o.dtype)
        else:
            raise Unmodelled("object %r at a loop head" % (o,))
        n.owner = None
        return n

    def dim(self, x):
        if isinstance(x, T):
            return self.leaf("n", x)
        self.sk.append(x)
        return x

    def view(self, v):
        if isinstance(v, tuple):
            self.sk.append(("v", len(v)))
            return tuple(self.view(x) for x in v)
        if isinstance(v, T):
            return self.leaf("n", v)
        self.sk.append(v)
        return v


class Entry:
    __slots__ = ("leaves", "kinds", "facts", "n", "live", "names", "shapes",
                 "dead")


def live_of(leaves):
    syms, names = set(), set()
    from .npmodel import C, content_syms
    for v in leaves:
        if isinstance(v, T):
            syms |= v.syms
            names |= fnames(v)
        elif isinstance(v, C):
            syms |= content_syms(v)
            names |= content_names(v)
        elif hasattr(v, "term_syms"):
            syms |= v.term_syms()
            names |= v.term_names()
    return syms, names


def restrict(f, syms, names):
    """facts over live symbols only"""
    g = Facts()
    for t, x in f.iv.items():
        t2 = f.n(t)
        if not isinstance(t2, T):
            continue
        if t2 is not t:
            if t2.op == "lin":
                continue
        if t2.syms <= syms and fnames(t2) <= names and (
                t2.syms or fnames(t2) or t2.op in ("byteat",)):
            if t2 in g.iv:
                o = g.iv[t2]
                x = (max(o[0], x[0]), min(o[1], x[1]),
                     max(o[2], x[2]), o[3] if o[2] >= x[2] else x[3])
            g.iv[t2] = x
    for t, v in f.truth.items():
        t2 = f.n(t)
        while isinstance(t2, T) and t2.op == "not":
            t2, v = t2.args[0], not v
        if isinstance(t2, T) and t2.syms <= syms and fnames(t2) <= names \
                and (t2.syms or fnames(t2)):
            g.truth[t2] = v
    return g


class Joiner:
    def __init__(self, vm, limit=3, widen_after=2):
        self.vm = vm
        self.tab = {}
        self.wide = {}
        self.seen = {}
        self.limit = limit
        self.widen_after = widen_after
        self.arrivals = 0
        self.pruned = 0
        self.merges = 0
        self.trace = False
        self.abs_paths = set()
        self.lens = {}
        self.heads = {}

    def arrive(self, st):
        vm = self.vm
        self.arrivals += 1
        self.st = st
        w = Walk(vm, st).run()
        self.shapes = w.shapes
        key = tuple(w.sk)
        head = st.frames[-1]
        tgt = head.ip
        syms, names = live_of(w.leaves)
        syms |= vm.base_syms
        facts = restrict(st.facts, syms, names)
        for b in vm.base_syms:
            if b in st.facts.sub:
                lo, hi = st.facts.rng(b)
                if (lo, hi) != (-INF, INF):
                    facts.iv[b] = (lo, hi, 1, 0)
        wide = self.wide.setdefault(key, set())
        seen = self.seen.setdefault(key, {})
        grew = False
        for i, (v, k) in enumerate(zip(w.leaves, w.kinds)):
            if i in wide:
                continue
            if k in ("n", "f") and not isinstance(v, T):
                s = seen.setdefault(i, set())
                s.add(v)
                if len(s) > self.limit:
                    wide.add(i)
                    grew = True
            else:
                wide.add(i)
                grew = True
        ents = self.tab.setdefault(key, {})
        if grew and ents:
            allw = [e for es in ents.values() for e in es]
            ents.clear()
            for e in allw:
                ents.setdefault(self.sub(e.leaves, wide), []).append(e)
        sub = self.sub(w.leaves, wide)
        group = ents.get(sub)
        if self.trace:
            print("JOIN", st.frames[-1].where(), "keys", len(self.tab),
                  "group", len(group or ()), "wide",
                  [w.names[i] for i in sorted(wide)][:8])
        hk = (head.ci.qualname, head.ci.filename, tgt)
        self.heads[hk] = self.heads.get(hk, 0) + 1
        if group:
            for e in group:
                if self.match(e, w.leaves, facts):
                    self.pruned += 1
                    return []
            n = max(e.n for e in group) + 1
            leaves, f = w.leaves, facts
            for e in group:
                leaves, f = self.merge(e.leaves, e.facts, leaves, f, w.kinds,
                                       w.names, n)
            self.merges += 1
            w2 = Walk(vm, st, repl=leaves).run()
            facts = f
            leaves = [l for l in w2.repl]
        else:
            n = 0
            leaves = w.leaves
            if vm.atomise:
                leaves = self.forget(leaves, w.kinds, facts)
            w2 = Walk(vm, st, repl=leaves).run()
        e = Entry()
        e.dead = False
        for o in group or ():
            # a more general state takes its place
            o.dead = True
        e.leaves, e.facts, e.n, e.kinds = leaves, facts, n, w.kinds
        e.names = w.names
        ents[sub] = [e]
        # tag for residue partitioning
        for v, nm, k in zip(leaves, w.names, w.kinds):
            if k == "n" and isinstance(v, T):
                c, d = terms.parts(v)
                if len(d) == 1:
                    (a, kk), = d.items()
                    if a.op == "sym" and a not in vm.tags:
                        vm.tags[a] = nm
        s = State.__new__(State)
        s.base = st.base
        s.heap = w2.heap
        s.frames = w2.frames
        s.facts = facts.copy()
        s.script = ()
        s.cursor = 0
        s.token = object()
        s.next = st.next
        s.roots = w2.roots
        s.nforks = 0
        s.result = None
        s.trail = st.trail
        s.muts = 0
        s.origin = e
        s.frames[-1].lastfork[tgt] = (-1, 0)
        return [s]

    def sub(self, leaves, wide):
        return tuple((i, v) for i, v in enumerate(leaves) if i not in wide)

    # ---------------------------------------------------------- subsumption
    def match(self, e, leaves, facts):
        from .npmodel import C
        m = {}
        nm = {}
        later = []
        for i, (w, s, k) in enumerate(zip(e.leaves, leaves, e.kinds)):
            if k == "c":
                if w == s:
                    continue
                if not self.match_content(i, w, s, nm, facts):
                    return False
                if type(w).__name__ == "CPred" and any(
                        p[0] == "ne" for p in w.preds):
                    later.append((w, s, (k, i)))
                continue
            if k == "a":
                if w == s:
                    for x in w.term_syms():
                        if m.setdefault(x, x) is not x:
                            return False
                    continue
                later.append((w, s, k))
                continue
            if not isinstance(w, T):
                if isinstance(s, T) or w != s and not (w != w and s != s):
                    return False
                continue
            if k == "n":
                c, d = terms.parts(w)
                if len(d) == 1:
                    (a, kk), = d.items()
                    if kk == 1 and a.op == "sym":
                        v = terms.sub(s, c)
                        if a in m:
                            z = terms.sub(m[a], v)
                            if isinstance(z, T) and facts.const(z) != 0 or \
                                    not isinstance(z, T) and z != 0:
                                return False
                        else:
                            m[a] = v
                        continue
            elif w.op == "sym":
                if isinstance(s, T) and s.sort != w.sort:
                    return False
                if w in m:
                    if m[w] != s:
                        return False
                else:
                    m[w] = s
                continue
            later.append((w, s, k))
        for w, s, k in later:
            if k == "a":
                if not self.match_abs(w, s, m, facts):
                    return False
                continue
            if k[0] == "c":
                if not self.match_ne(k[1], w, s, m, facts):
                    return False
                continue
            if any(x not in m for x in w.syms):
                for x in w.syms:
                    m.setdefault(x, x)
            if nm and fnames(w) & set(nm):
                return False
            w2 = terms.subst(w, m)
            if w2 is s:
                continue
            if k == "n":
                z = terms.sub(w2, s)
                if z == 0 or isinstance(z, T) and facts.const(z) == 0:
                    continue
            elif not isinstance(w2, T) and not isinstance(s, T) and w2 == s:
                continue
            return False
        for t, (lo, hi, mod, rem) in e.facts.iv.items():
            if nm and fnames(t) & set(nm):
                return False
            t2 = terms.subst(t, m)
            l, h = facts.rng(t2)
            if l < lo or h > hi:
                return False
            if mod > 1:
                mm, r = facts.cong(t2) if isinstance(t2, T) else (0, t2)
                if (mm % mod or r % mod != rem % mod) if mm else \
                        (r % mod != rem % mod):
                    return False
        for t, v in e.facts.truth.items():
            if nm and fnames(t) & set(nm):
                return False
            t2 = terms.subst(t, m)
            k = facts.known(t2) if isinstance(t2, T) else bool(t2)
            if k is not v:
                return False
        return True

    def scratch(self, facts):
        s = self.st.copy()
        s.facts = facts.copy()
        s.script, s.cursor = (), 0
        return s

    def match_content(self, i, w, s, nm, facts):
        from .npmodel import CAtom, CPred, generic_range
        preds = ()
        a = w
        if isinstance(a, CPred):
            a, preds = a.base, a.preds
        if isinstance(a, CAtom):
            if a.name in nm:
                return nm[a.name] == s
            lo, hi = crange(a)
            r = content_range(s, a.dtype)
            if r is None or not (lo <= r[0] and r[1] <= hi):
                if not self.vm.array_preds:
                    return False
                r = generic_range(self.vm, self.scratch(facts), s,
                                  self.shapes[i][0])
                if r is None or not (lo <= r[0] and r[1] <= hi):
                    return False
            elem = set(p[1] for p in preds if p[0] == "elem")
            if elem and elem != self.preds(i, s, facts, elem, ())[0]:
                return False
            for p in preds:
                if isinstance(p, str) and not self.vm.array_preds[p].holds(
                        self.vm, self.scratch(facts), s):
                    return False
            nm[a.name] = s
            return True
        return False

    def preds(self, i, c, facts, names, ts):
        from .npmodel import generic_preds
        return generic_preds(self.vm, self.scratch(facts), c,
                             self.shapes[i][0][0], names, ts)

    def match_ne(self, i, w, s, m, facts):
        """the elements of s differ from the terms that those of w do"""
        ts = set()
        for p in w.preds:
            if p[0] == "ne":
                if any(x not in m and x not in self.vm.base_syms
                       for x in p[1].syms):
                    return False
                ts.add(terms.subst(p[1], m))
        return self.preds(i, s, facts, (), ts)[1] == ts

    def match_abs(self, w, s, m, facts):
        return w.subsumes(s, m, facts)

    # ------------------------------------------------------- generalisation
    def merge(self, W, Fw, S, Fs, kinds, names, n):
        from .npmodel import C, CAtom
        out = []
        groups = []          # (base sym, w, s)
        subW, subS = {}, {}
        strs = {}
        lists = []
        unb = self.unb = set()
        widen = n >= self.widen_after
        g = Facts()
        for i, (w, s, k, nm) in enumerate(zip(W, S, kinds, names)):
            if k == "c":
                out.append(w if w == s else
                           self.merge_content(i, w, s, Fw, Fs, widen))
                continue
            if k == "a":
                out.append(w if w == s else w.join(self.vm, s, Fw, Fs, widen))
                if getattr(w, "ne", None) and getattr(s, "ne", None):
                    lists.append((i, w, s))
                continue
            if w is s or (not isinstance(w, T) and not isinstance(s, T)
                          and (w == s or w != w and s != s)):
                out.append(w)
                continue
            if k == "n":
                for j, w0, s0 in groups:
                    d1 = terms.sub(w, w0)
                    if isinstance(d1, T):
                        continue
                    d2 = terms.sub(s, s0)
                    if not isinstance(d2, T) and d1 == d2:
                        out.append(terms.add(j, d1))
                        break
                else:
                    j = terms.sym("j")
                    groups.append((j, w, s))
                    subW[j], subS[j] = w, s
                    a, b = Fw.rng(w), Fs.rng(s)
                    lo, hi = min(a[0], b[0]), max(a[1], b[1])
                    if widen:
                        if b[0] < a[0]:
                            lo = down(b[0])
                        if b[1] > a[1]:
                            hi = up(b[1])
                            if nm in UNBOUNDED:
                                hi = INF
                                unb.add(j)
                    m1, r1 = Fw.cong(w) if isinstance(w, T) else (0, w)
                    m2, r2 = Fs.cong(s) if isinstance(s, T) else (0, s)
                    md = gcd(gcd(m1, m2), abs(r1 - r2))
                    md = md or 1
                    if widen and md > 1 and m1 != 0 and md != m1:
                        pass
                    if (lo, hi, md) != (-INF, INF, 1):
                        g.iv[j] = (lo, hi, md, r1 % md)
                    out.append(j)
                continue
            key = (w, s)
            if key in strs:
                out.append(strs[key])
                continue
            if k == "f":
                j = terms.sym("j", "float")
                a, b = Fw.rng(w), Fs.rng(s)
                lo, hi = min(a[0], b[0]), max(a[1], b[1])
                if widen:
                    if b[0] < a[0]:
                        lo = down(b[0])
                    if b[1] > a[1]:
                        hi = up(b[1])
                if (lo, hi) != (-INF, INF) and lo == lo and hi == hi:
                    g.iv[j] = (lo, hi, 1, 0)
            else:
                so = w.sort if isinstance(w, T) else s.sort
                j = terms.sym("j", so)
            strs[key] = j
            subW[j], subS[j] = w, s
            out.append(j)
        if self.vm.eager:
            self.derive(out, groups, W, kinds, Fs, subW, subS, g)
        for i, k in enumerate(kinds):
            if k == "c" and type(out[i]).__name__ in ("CAtom", "CPred") and \
                    W[i] != S[i]:
                out[i] = self.elem_content(i, W, S, out, Fw, Fs, kinds)
        if lists:
            inv = self.inverse(W, out, kinds)
            for i, w, s in lists:
                ne = set()
                for k, t in w.ne:
                    if not isinstance(t, T) or not all(
                            x in inv or x in self.vm.base_syms
                            for x in t.syms):
                        continue
                    t2 = terms.subst(t, {x: inv[x] for x in t.syms
                                         if x in inv})
                    if not isinstance(t2, T):
                        continue
                    ts = Fs.n(terms.subst(t2, subS))
                    if (k, ts) in s.ne or isinstance(ts, T) and any(
                            q == k and Fs.n(y) is ts for q, y in s.ne):
                        ne.add((k, t2))
                out[i].ne = frozenset(ne)
        syms, nms = live_of(out)
        syms |= self.vm.base_syms
        g2 = g
        # facts about retained atoms and relations between leaves
        invW = self.inverse(W, out, kinds)
        invS = self.inverse(S, out, kinds)
        self.carry(Fw, invW, Fs, subS, syms, nms, g2, widen)
        self.octagon(groups, out, kinds, Fw, Fs, subW, subS, g2, widen)
        if n <= 3:
            self.carry(Fs, invS, Fw, subW, syms, nms, g2, widen)
        return out, g2

    def derive(self, out, groups, W, kinds, Fs, subW, subS, g):
        """elements of arrays at merged indices stay such elements"""
        nms = live_of(out)[1]
        for j, w, s in list(groups):
            if not isinstance(w, T) or w.op != "sel" or not isinstance(s, T) \
                    or s.op != "sel" or not fnames(w) <= nms:
                continue
            inv = self.inverse(W, out, kinds)
            if any(x not in inv and x not in self.vm.base_syms
                   for x in w.syms):
                continue
            t = terms.subst(w, {x: inv[x] for x in w.syms if x in inv})
            if not isinstance(t, T) or j in t.syms:
                continue
            if Fs.n(terms.subst(t, subS)) is not s:
                continue
            for i, x in enumerate(out):
                if kinds[i] == "n" and isinstance(x, T) and j in x.syms:
                    out[i] = terms.subst(x, {j: t})
            iv = g.iv.pop(j, None)
            if iv:
                g.iv[t] = iv
            groups.remove((j, w, s))
            subW.pop(j)
            subS.pop(j)

    def forget(self, leaves, kinds, facts):
        """keep only bounds and predicates of computed array contents"""
        out = list(leaves)
        for i, (c, k) in enumerate(zip(leaves, kinds)):
            if k == "c" and type(c).__name__ not in (
                    "CHost", "CConst", "CAtom", "CPred", "CRange", "CItems"):
                out[i] = self.merge_content(i, c, c, facts, facts, False)
                out[i] = self.elem_content(i, leaves, leaves, out, facts,
                                           facts, kinds)
        return out

    def elem_content(self, i, W, S, out, Fw, Fs, kinds):
        """what the elements of a one-dimensional array have in common"""
        from .npmodel import CPred, INFO
        sh, dt = self.shapes[i]
        vm = self.vm
        if not vm.elem_preds or len(sh) != 1 or dt not in INFO:
            return out[i]
        cand = {}
        for w, s, o, k in zip(W, S, out, kinds):
            if k == "n" and isinstance(o, T) and o.sort == "int":
                cand.setdefault(o, (w, s))
        wn, wt = self.preds(i, W[i], Fw, vm.elem_preds,
                            [w for w, s in cand.values()])
        sn, ts = self.preds(i, S[i], Fs, wn, [
            s for w, s in cand.values() if w in wt])
        ps = tuple(("elem", n) for n in sorted(sn)) + tuple(
            ("ne", o) for o, (w, s) in cand.items() if w in wt and s in ts)
        c = out[i]
        if type(c).__name__ == "CPred":
            c, ps = c.base, c.preds + ps
        return CPred(c, ps) if ps else c

    def octagon(self, groups, out, kinds, Fw, Fs, subW, subS, g, widen):
        """bounds on differences that hold in both states"""
        if not groups or len(groups) > 16:
            return
        xs = []
        for v, k in zip(out, kinds):
            if k == "n" and isinstance(v, T):
                for a in terms.parts(v)[1]:
                    if a.op == "sym" and a not in xs:
                        xs.append(a)
        if len(self.vm.base_syms) <= 6:
            xs += [b for b in sorted(self.vm.base_syms, key=lambda x: x.id)
                   if b.sort == "int" and b not in xs]
        if len(xs) > 30:
            return
        for j, w, s in groups:
            for x in xs:
                if x is j or (x in subW and x.id < j.id):
                    continue
                d = terms.sub(j, x)
                a = Fw.rng(terms.sub(w, terms.subst(x, subW)))
                b = Fs.rng(terms.sub(s, terms.subst(x, subS)))
                lo, hi = min(a[0], b[0]), max(a[1], b[1])
                if widen:
                    if b[0] < a[0]:
                        lo = -oup(-b[0])
                    if b[1] > a[1]:
                        hi = oup(b[1])
                r = g.rng(d)
                if lo > r[0] or hi < r[1]:
                    c, dd = terms.parts(d)
                    base = terms.lin(0, dd)
                    try:
                        g._setlin(base, lo - c, hi - c)
                        g._setlin(terms.scale(base, -1), c - hi, c - lo)
                    except terms.Infeasible:
                        # one of the states cannot occur; its bounds
                        # contradict each other and are left as they are
                        pass

    def inverse(self, old, new, kinds):
        inv = {}
        for w, o, k in zip(old, new, kinds):
            if isinstance(w, T) and k == "n" and isinstance(
                    o, (T, int)):
                c, d = terms.parts(w)
                if len(d) == 1:
                    (a, kk), = d.items()
                    if kk == 1 and a.op == "sym":
                        inv.setdefault(a, terms.sub(o, c))
            elif isinstance(w, T) and w.op == "sym" and isinstance(o, T):
                inv.setdefault(w, o)
        return inv

    def carry(self, Fa, inv, Fb, subB, syms, nms, g, widen):
        """facts of Fa, rewritten over the new symbols, that Fb implies"""
        def tr(t):
            m = {}
            for x in t.syms:
                if x in inv:
                    m[x] = inv[x]
                elif x in syms:
                    continue
                else:
                    return None
            t2 = terms.subst(t, m) if m else t
            if not isinstance(t2, T) or not t2.syms <= syms or \
                    not fnames(t2) <= nms:
                return None
            if not t2.syms and not fnames(t2):
                return None
            return t2
        for t, (lo, hi, mod, rem) in Fa.iv.items():
            t2 = tr(t)
            if t2 is None or t2.sort == "bool":
                continue
            tb = terms.subst(t2, subB)
            l, h = Fb.rng(tb)
            lo2, hi2 = min(lo, l), max(hi, h)
            if t2 in self.unb and h > hi:
                hi2 = INF
            elif widen:
                if l < lo:
                    lo2 = -oup(-l) if t2.op == "lin" else down(l)
                if h > hi:
                    hi2 = oup(h) if t2.op == "lin" else up(h)
            mm, rr = Fb.cong(tb) if isinstance(tb, T) else (0, tb)
            md = 1
            if mod > 1 or mod == 0:
                try:
                    md = gcd(gcd(mod, mm), abs(rem - rr)) or 1
                except TypeError:
                    md = 1
            if t2.op == "lin":
                c, d = terms.parts(t2)
                base = terms.lin(0, d)
                if base.op == "lin":
                    if lo2 > -INF or hi2 < INF:
                        g._setlin(base, lo2 - c, hi2 - c)
                        g._setlin(terms.scale(base, -1), c - hi2, c - lo2)
                    continue
                if len(d) == 1:
                    continue
            o = g.iv.get(t2)
            if o is not None:
                lo2, hi2 = max(lo2, o[0]), min(hi2, o[1])
                if o[2] > 1:
                    md, rem = o[2], o[3]
            if (lo2, hi2, md) != (-INF, INF, 1):
                g.iv[t2] = (lo2, hi2, md, rem % md if md > 1 else 0)
        for t, v in Fa.truth.items():
            t2 = tr(t)
            if t2 is None:
                continue
            while isinstance(t2, T) and t2.op == "not":
                t2, v = t2.args[0], not v
            tb = terms.subst(t2, subB)
            k = Fb.known(tb) if isinstance(tb, T) else bool(tb)
            if k is v:
                try:
                    g.assume(t2, v)
                except Infeasible:
                    pass

    def merge_content(self, i, w, s, Fw, Fs, widen):
        from .npmodel import CAtom, CPred, generic_range
        vm = self.vm
        sh, dt = self.shapes[i]
        if vm.array_preds:
            a = generic_range(vm, self.scratch(Fw), w, sh)
            b = generic_range(vm, self.scratch(Fs), s, sh)
        else:
            a, b = content_range(w, dt), content_range(s, dt)
        if a is None or b is None:
            raise Unmodelled("array content at a loop head")
        if not vm.array_preds:
            lo, hi = min(a[0], b[0]), max(a[1], b[1])
            return CAtom("j#%d" % terms.sym("arr").args[1], dt, lo, hi)
        lo, hi = min(a[0], b[0]), max(a[1], b[1])
        if widen:
            if b[0] < a[0]:
                lo = down(b[0])
            if b[1] > a[1]:
                hi = up(b[1])
        at = CAtom("j#%d" % terms.sym("arr").args[1], dt, lo, hi)
        ps = tuple(p for p in sorted(vm.array_preds)
                   if vm.array_preds[p].shape == sh and
                   vm.array_preds[p].holds(vm, self.scratch(Fw), w) and
                   vm.array_preds[p].holds(vm, self.scratch(Fs), s))
        return CPred(at, ps) if ps else at


def crange(c):
    from .npmodel import INFO
    if c.lo is not None:
        return (c.lo, c.hi)
    return INFO.get(c.dtype, (-INF, INF))


def content_dtype(c):
    if type(c).__name__ == "CPred":
        c = c.base
    return getattr(c, "dtype", None)


def content_range(c, dtype=None):
    """bounds of an array content; None when unknown"""
    from . import npmodel as P
    if isinstance(c, P.CPred):
        c = c.base
    if isinstance(c, P.CAtom):
        return crange(c)
    if isinstance(c, P.CHost):
        if c.arr.size == 0:
            return None
        return (c.arr.min().item(), c.arr.max().item())
    d = dtype or content_dtype(c)
    if d in P.INFO:
        return P.INFO[d]
    if d is not None:
        return (-INF, INF)
    if isinstance(c, P.CConst) and not isinstance(c.v, T):
        return (c.v, c.v)
    return None
