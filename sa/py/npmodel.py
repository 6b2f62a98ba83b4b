"""Abstract numpy (1.22 semantics).  An array is a view of a storage object
whose content is an immutable expression, evaluated element-wise on demand at
a (possibly symbolic) index."""

import numpy as np

from . import terms
from .terms import T, Infeasible
from .state import (A, Ref, NF, BM, ARange, Table, HList, HDict, HInst, HClass,
                    HModule, HIter, HStore, HArr, PyRaise)
from .containers import ListT
from .interp import NULL, TailCall, Unmodelled, mkA
from .builtins_ import (num_of, b2i, int_op, float_op, is_float, NPTYPES,
                        trunc, simp, i_fdiv, i_mod, mkbool)

INF = terms.INF

INFO = {
    "uint8": (0, 2 ** 8 - 1), "uint16": (0, 2 ** 16 - 1),
    "uint32": (0, 2 ** 32 - 1), "uint64": (0, 2 ** 64 - 1),
    "int8": (-2 ** 7, 2 ** 7 - 1), "int16": (-2 ** 15, 2 ** 15 - 1),
    "int32": (-2 ** 31, 2 ** 31 - 1), "int64": (-2 ** 63, 2 ** 63 - 1),
}
ALIASES = {"bool": "bool_", "bool8": "bool_", "int": "int64", "int_": "int64",
           "float": "float64", "intp": "int64", "uintp": "uint64",
           "float_": "float64", "double": "float64", "single": "float32",
           "ubyte": "uint8", "byte": "int8", "ushort": "uint16",
           "short": "int16", "intc": "int32", "uintc": "uint32",
           "longlong": "int64", "ulonglong": "uint64", "long": "int64",
           "u1": "uint8", "u2": "uint16", "u4": "uint32", "u8": "uint64",
           "i1": "int8", "i2": "int16", "i4": "int32", "i8": "int64",
           "f4": "float32", "f8": "float64", "b": "int8", "B": "uint8",
           "<i2": "int16", "<u2": "uint16", "?": "bool_"}


def npd(dt):
    return np.dtype("bool" if dt == "bool_" else dt)


def dname(d):
    n = np.dtype(d).name
    return "bool_" if n == "bool" else n


def kind(dt):
    if dt in ("bool", "bool_"):
        return 0
    if dt == "int" or dt in INFO:
        return 1
    return 2


def promote(a, b):
    return dname(np.promote_types(npd(a), npd(b)))


def full(ty):
    return {"int": "int64", "bool": "bool_", "float": "float64"}.get(ty, ty)


def min_scalar(st, ty, m):
    """numpy's min_scalar_type for the values m may take; None if it
    varies"""
    if kind(ty) == 0:
        return "bool_"
    if kind(ty) == 2:
        return "float16" if ty in ("float", "float64", "float32") else ty
    if not isinstance(m, T):
        return dname(np.min_scalar_type(int(m)))
    lo, hi = st.facts.rng(m)
    if lo == -INF or hi == INF:
        return None
    a = dname(np.min_scalar_type(int(lo)))
    b = dname(np.min_scalar_type(int(hi)))
    if lo >= 0:
        return b
    return promote(a, b) if a != b else a


def result_type(st, ops):
    """ops: list of (is_array, ty, m)"""
    arrs = [o for o in ops if o[0]]
    scal = [o for o in ops if not o[0]]
    if not arrs or not scal:
        r = full(ops[0][1])
        for o in ops[1:]:
            r = promote(r, full(o[1]))
        return r
    ka = max(kind(o[1]) for o in arrs)
    ks = max(kind(o[1]) for o in scal)
    r = arrs[0][1]
    for o in arrs[1:]:
        r = promote(r, o[1])
    for o in scal:
        if ks > ka:
            if kind(o[1]) == 2 and ka < 2:
                r = promote(r, full(o[1]))
                continue
            r = promote(r, full(o[1]))
            continue
        if kind(o[1]) == 2:
            continue
        ms = min_scalar(st, o[1], o[2])
        if ms is None:
            ms = full(o[1])
        # non-negative values also fit the signed types
        if kind(r) == 1 and ms in INFO and not isinstance(o[2], T):
            lo, hi = INFO[r]
            if lo <= o[2] <= hi:
                continue
        if kind(r) == 1 and ms in INFO and isinstance(o[2], T):
            lo, hi = INFO[r]
            l, h = st.facts.rng(o[2])
            if lo <= l and h <= hi:
                continue
        r = promote(r, ms)
    return r


def wrap(vm, st, dt, m, frm=None):
    """mathematical value m stored as dtype dt"""
    if dt == "bool_":
        if isinstance(m, T):
            if m.sort == "bool":
                return m
            if m.sort == "float":
                return terms.t_not(terms.t_feq(m, 0.0))
            return terms.t_not(terms.t_eq0(m))
        return bool(m)
    if dt in INFO:
        if isinstance(m, T) and m.sort == "float":
            m = trunc_of(m)
        if isinstance(m, T) and m.sort == "bool":
            m = b2i(m)
        if isinstance(m, float):
            if m != m or m in (INF, -INF):
                m = -2 ** 63
            m = int(m)
        lo, hi = INFO[dt]
        if not isinstance(m, T):
            m = int(m)
            return (m - lo) % (hi - lo + 1) + lo
        l, h = st.facts.rng(m)
        if lo <= l and h <= hi:
            return m
        n = hi - lo + 1
        r = simp(st, terms.t_mod(terms.sub(m, lo), n))
        return terms.add(r, lo)
    # floats
    if isinstance(m, T):
        if m.sort == "bool":
            m = b2i(m)
        return terms.to_f(m)
    if dt == "float32":
        return float(np.float32(m))
    return float(m)


def trunc_of(m):
    """int() of a float term"""
    if m.op == "i2f":
        return m.args[0]
    return trunc(m)


# ------------------------------------------------------------------ contents

class C:
    """content expression"""
    __slots__ = ("_h",)
    fields = ()

    def key(self):
        return tuple(getattr(self, f) for f in self.fields)

    def __eq__(self, o):
        return self is o or (type(o) is type(self) and hash(self) == hash(o)
                             and self.key() == o.key())

    def __hash__(self):
        h = getattr(self, "_h", None)
        if h is None:
            h = self._h = hash((type(self).__name__,) + self.key())
        return h

    def kids(self):
        return [x for x in self.key() if isinstance(x, C)]

    def __repr__(self):
        return "%s%r" % (type(self).__name__, self.key())


def node(name, *fields):
    def init(self, *args):
        assert len(args) == len(fields), name
        for f, a in zip(fields, args):
            object.__setattr__(self, f, a)
    return type(name, (C,), {"__slots__": fields, "fields": fields,
                             "__init__": init})


CConst = node("CConst", "v")
CAtom = node("CAtom", "name", "dtype", "lo", "hi")
CStore = node("CStore", "base", "idx", "val")
CRegion = node("CRegion", "base", "view", "shape", "src", "dtype")
CMask = node("CMask", "base", "mask", "src", "dtype")
CScatter = node("CScatter", "base", "atom", "where")
CPerm = node("CPerm", "base", "where", "inv", "src")
CMap = node("CMap", "op", "args", "dtype", "dts")
CView = node("CView", "base", "view")
CBcast = node("CBcast", "base", "shape")
CRoll = node("CRoll", "base", "shape", "shift", "axis")
CStack = node("CStack", "args", "axis")
CConcat = node("CConcat", "args", "lens", "axis")
CGather = node("CGather", "base", "spec")
CRange = node("CRange", "start", "step")
CNz = node("CNz", "name", "base", "shape", "dim", "cond")
CItems = node("CItems", "items")
CPred = node("CPred", "base", "preds")


class CHost(C):
    __slots__ = ("arr", "owner", "tbl", "_r")
    fields = ()

    def __init__(self, arr):
        self.arr = arr
        self.owner = None
        self.tbl = None
        self._r = None

    def __eq__(self, o):
        return self is o or (isinstance(o, CHost) and
                             self.arr.shape == o.arr.shape and
                             self.arr.dtype == o.arr.dtype and
                             np.array_equal(self.arr, o.arr))

    def __hash__(self):
        return hash((self.arr.shape, self.arr.dtype.name))

    def __repr__(self):
        return "CHost%r" % (self.arr.shape,)


def snap(c):
    """content about to be shared"""
    if isinstance(c, CHost):
        c.owner = None
    return c


def content_syms(c, out=None, seen=None):
    """terms' symbols occurring in a content expression"""
    if out is None:
        out, seen = set(), set()
    if id(c) in seen:
        return out
    seen.add(id(c))

    def walk(x):
        if isinstance(x, C):
            content_syms(x, out, seen)
        elif isinstance(x, T):
            out.update(x.syms)
        elif isinstance(x, A):
            walk(x.m)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
    for x in c.key():
        walk(x)
    return out


def norm_content(f, c):
    """content with symbols that are known to be equal to something else
    replaced"""
    if not f.sub or not any(x in f.sub for x in content_syms(c)):
        return c
    memo = {}

    def go(x):
        if isinstance(x, T):
            return f.n(x)
        if isinstance(x, tuple):
            r = tuple(go(y) for y in x)
            return x if all(a is b for a, b in zip(r, x)) else r
        if isinstance(x, CHost) or not isinstance(x, C):
            return x
        r = memo.get(id(x))
        if r is None:
            k = x.key()
            k2 = go(k)
            r = memo[id(x)] = x if k2 is k else type(x)(*k2)
        return r
    return go(c)


def host_m(x, dt):
    if dt == "bool_":
        return bool(x)
    if is_float(dt):
        return float(x)
    return int(x)


def canon(st, i):
    """an index made of shifted and masked parts, in a normal form"""
    if not isinstance(i, T):
        return i
    if i.op == "sym" or not any(a.op in ("mod", "fdiv", "and", "or", "xor")
                                for a in terms.parts(i)[1]):
        return i
    b = st.facts.bits(i)
    if b is None:
        return i
    r, k = 0, 0
    while k < len(b):
        u = b[k]
        if u in (0, 1):
            r = terms.add(r, u << k)
            k += 1
            continue
        if len(u[1]) != 1:
            return i
        (l,) = u[1]
        if not isinstance(l, tuple) or not isinstance(l[0], T):
            return i
        a, at = l
        n = 1
        while k + n < len(b) and b[k + n] == ("b", frozenset(
                [(a, at + n)])):
            n += 1
        lo, hi = st.facts.rng(a)
        x = a
        if at:
            x = terms.t_fdiv(x, 2 ** at)
        if lo < 0 or hi >= 2 ** (at + n):
            x = terms.t_mod(x, 2 ** n)
        r = terms.add(r, x, 2 ** k)
        k += n
    return r


def atomval(st, c, idx):
    dt = c.dtype
    sort = "bool" if dt == "bool_" else "float" if is_float(dt) else "int"
    t = terms.mk("sel", (c.name,) + tuple(
        canon(st, st.facts.n(i)) if isinstance(i, T) else int(i)
        for i in idx), sort)
    if sort != "bool":
        lo, hi = c.lo, c.hi
        if lo is None:
            lo, hi = INFO.get(dt, (-INF, INF))
        if (lo, hi) != (-INF, INF):
            st.facts.iv.setdefault(t, (lo, hi, 1, 0))
    return t


def eq_index(vm, st, i, j):
    if not isinstance(i, T) and not isinstance(j, T):
        return i == j
    return st.decide(vm.cmp_num(st, "==", i, j))


def ceval(vm, st, c, idx):
    """element of content c at storage index idx (mathematical value)"""
    while True:
        if isinstance(c, CConst):
            return c.v
        if isinstance(c, CAtom):
            return atomval(st, c, idx)
        if isinstance(c, CHost):
            return host_at(vm, st, c, idx)
        if isinstance(c, CStore):
            if all(eq_index(vm, st, i, j) for i, j in zip(c.idx, idx)):
                return c.val
            c = c.base
            continue
        if isinstance(c, CItems):
            if all(not isinstance(i, T) for i in idx):
                return c.items[tuple(int(i) for i in idx)]
            for k, v in c.items.items():
                if all(eq_index(vm, st, i, j) for i, j in zip(k, idx)):
                    return v
            raise Infeasible()
        if isinstance(c, CRegion):
            r = uninvert(vm, st, c.view, c.shape, idx)
            if r is None:
                c = c.base
                continue
            v = ceval(vm, st, c.src, r)
            return v
        if isinstance(c, CMask):
            m = ceval(vm, st, c.mask, idx)
            if st.decide(m) if isinstance(m, T) else m:
                return ceval(vm, st, c.src, idx)
            c = c.base
            continue
        if isinstance(c, CScatter):
            if c.where is not None:
                if not all(eq_index(vm, st, i, j)
                           for i, j in zip(c.where, idx)):
                    c = c.base
                    continue
            return atomval(st, c.atom, idx)
        if isinstance(c, CPerm):
            k = len(c.where)
            if not all(eq_index(vm, st, i, j)
                       for i, j in zip(c.where, idx)):
                c = c.base
                continue
            e, j = idx[k], 0
            for frm, to, n in c.inv:
                b = i_fdiv(vm, st, e, 2 ** frm)
                b = simp(st, i_mod(vm, st, simp(st, b), 2 ** n))
                j = terms.add(j, b, 2 ** to)
            idx = (simp(st, j),)
            c = c.src
            continue
        if isinstance(c, CMap):
            vals = [ceval(vm, st, a, idx) for a in c.args]
            return apply_op(vm, st, c.op, vals, c.dts, c.dtype)
        if isinstance(c, CView):
            idx = apply_view(vm, st, c.view, idx)
            c = c.base
            continue
        if isinstance(c, CBcast):
            sh = c.shape
            idx = tuple(0 if (not isinstance(n, T) and n == 1) else i
                        for n, i in zip(sh, idx[len(idx) - len(sh):]))
            c = c.base
            continue
        if isinstance(c, CRoll):
            idx = list(idx)
            if c.axis is None:
                raise Unmodelled("flat roll")
            n = c.shape[c.axis]
            idx[c.axis] = simp(st, i_mod(vm, st, terms.sub(
                idx[c.axis], c.shift), n))
            k = idx[c.axis]
            if isinstance(k, T) and not isinstance(n, T):
                # resolve the wrap-around
                base = terms.sub(tuple(idx_orig(c, idx))[0], 0) \
                    if False else k
                idx[c.axis] = resolve_mod(st, base)
            idx = tuple(idx)
            c = c.base
            continue
        if isinstance(c, CStack):
            k = idx[c.axis]
            rest = idx[:c.axis] + idx[c.axis + 1:]
            for j in range(len(c.args) - 1):
                if eq_index(vm, st, k, j):
                    return ceval(vm, st, c.args[j], rest)
            return ceval(vm, st, c.args[-1], rest)
        if isinstance(c, CConcat):
            k = idx[c.axis]
            off = 0
            for a, n in zip(c.args[:-1], c.lens):
                end = terms.add(off, n)
                lt = vm.cmp_num(st, "<", k, end)
                if st.decide(lt) if isinstance(lt, T) else lt:
                    break
                off = end
            else:
                a = c.args[-1]
            idx = idx[:c.axis] + (terms.sub(k, off),) + idx[c.axis + 1:]
            c = a
            continue
        if isinstance(c, CGather):
            i0 = idx
            idx = tuple(
                s[1] if s[0] == "int" else
                (terms.add(s[1], terms.scale(idx[s[3]], s[2]))
                 if s[0] == "aff" else
                 norm_idx(vm, st, ceval(vm, st, s[1],
                                        tuple(idx[j] for j in s[2])), s[3]))
                for s in c.spec)
            if vm.summarise:
                nz = [(s[1], tuple(i0[j] for j in s[2])) for s in c.spec
                      if s[0] == "arr" and isinstance(s[1], CNz) and
                      s[1].cond]
                if nz:
                    return gather_summary(vm, st, c.base, idx, nz)
            c = c.base
            continue
        if isinstance(c, CRange):
            k = idx[0]
            if isinstance(c.start, float) or isinstance(c.step, float):
                raise Unmodelled("float arange")
            return terms.add(c.start, int_op(vm, st, "*", k, c.step))
        if isinstance(c, CPred):
            v = atomval(st, c.base, idx)
            for p in c.preds:
                if isinstance(p, str):
                    v = vm.array_preds[p].assume(vm, st, idx, v)
                elif p[0] == "elem":
                    vm.elem_preds[p[1]].assume(vm, st, v)
                else:
                    st.facts.assume(terms.t_eq0(terms.sub(v, p[1])), False)
            return v
        if isinstance(c, CNz):
            i = idx[0]
            n = len(c.shape)
            pos = []
            for d in range(n):
                t = terms.mk("nz", (c.name, d, st.facts.n(i)
                                    if isinstance(i, T) else i), "int")
                st.facts.iv.setdefault(t, (0, terms.sub(c.shape[d], 1)
                                           if not isinstance(c.shape[d], T)
                                           else INF, 1, 0))
                pos.append(t)
            key = terms.mk("nzdone", (c.name, st.facts.n(i) if isinstance(
                i, T) else i), "bool")
            if c.cond and vm.summarise and st.facts.truth.get(key) is None:
                nz_summary(vm, st, c, pos)
                st.facts.truth[key] = True
            if c.cond and st.facts.truth.get(key) is None:
                v = ceval(vm, st, c.base, tuple(pos))
                if isinstance(v, T):
                    b = wrap(vm, st, "bool_", v)
                    st.facts.assume(b, True)
                elif not v:
                    raise Infeasible()
                st.facts.truth[key] = True
            t = pos[c.dim]
            k = st.facts.const(t)
            return t if k is None else k
        raise Unmodelled("array content %r" % (type(c).__name__,))


def nz_summary(vm, st, c, pos):
    """what is known of the position of a nonzero element, without
    distinguishing cases"""
    from .containers import comp_preds, comp_ne
    from .state import all_cases

    def one(s):
        v = ceval(vm, s, c.base, pos)
        if isinstance(v, T):
            s.facts.assume(wrap(vm, s, "bool_", v), True)
        elif not v:
            raise Infeasible()
        return True
    pos = tuple(pos)
    e = tuple(mkA("int", p) for p in pos)
    rng = preds = ne = None
    for s, r in all_cases(vm, st, one):
        if r is None:
            return
        s.script, s.cursor = (), 0
        g = [s.facts.rng(p) for p in pos]
        p = comp_preds(vm, s, e, preds)
        q = comp_ne(vm, s, e, ne)
        if rng is None:
            rng = g
        else:
            rng = [(min(a[0], b[0]), max(a[1], b[1]))
                   for a, b in zip(rng, g)]
        preds, ne = p, q
    if rng is None:
        raise Infeasible()
    for p, (lo, hi) in zip(pos, rng):
        if lo > -INF:
            st.facts.assume(terms.t_le0(terms.sub(lo, p)), True)
        if hi < INF:
            st.facts.assume(terms.t_le0(terms.sub(p, hi)), True)
    for p, k in sorted(preds):
        vm.elem_preds[p].assume(vm, st, pos[k])
    for k, t in ne:
        st.facts.assume(terms.t_eq0(terms.sub(pos[k], t)), False)


def gather_summary(vm, st, base, idx, nz):
    """element of base at the position of a nonzero element of another
    array, without distinguishing cases"""
    from .state import all_cases

    def one(s):
        for c, i in nz:
            pos = tuple(terms.mk("nz", (c.name, d, s.facts.n(i[0])), "int")
                        for d in range(len(c.shape)))
            v = ceval(vm, s, c.base, pos)
            if isinstance(v, T):
                s.facts.assume(wrap(vm, s, "bool_", v), True)
            elif not v:
                raise Infeasible()
        return ceval(vm, s, base, idx)
    rs = all_cases(vm, st, one)
    if not rs:
        raise Infeasible()
    vals = set(s.facts.n(v) if isinstance(v, T) else v for s, v in rs)
    if len(vals) == 1 and None not in vals:
        v, = vals
        if isinstance(v, T) and v.sort == "int":
            lo = min(s.facts.rng(x)[0] for s, x in rs)
            hi = max(s.facts.rng(x)[1] for s, x in rs)
            if lo > -INF:
                st.facts.assume(terms.t_le0(terms.sub(lo, v)), True)
            if hi < INF:
                st.facts.assume(terms.t_le0(terms.sub(v, hi)), True)
        return v
    if any(v is None or isinstance(v, (bool, float)) or
           isinstance(v, T) and v.sort != "int" for v in vals):
        raise Unmodelled("summary of an array element")
    name = vm.sum_names.get(base)
    if name is None:
        name = vm.sum_names[base] = "sum#%d" % len(vm.sum_names)
    t = terms.mk("sel", (name,) + tuple(
        st.facts.n(i) if isinstance(i, T) else i for i in idx), "int")
    lo, hi = INF, -INF
    for s, v in rs:
        a, b = s.facts.rng(v) if isinstance(v, T) else (v, v)
        lo, hi = min(lo, a), max(hi, b)
    st.facts.iv.setdefault(t, (lo, hi, 1, 0))
    return t


class ZeroWhere:
    """array predicate: zero where a constant mask is set"""
    def __init__(self, mask):
        self.mask = CHost(np.array(mask, dtype=bool))
        self.shape = mask.shape

    def assume(self, vm, st, idx, v):
        m = host_at(vm, st, self.mask, idx)
        if not (st.decide(m) if isinstance(m, T) else m):
            return v
        if isinstance(v, T):
            st.facts.assume(terms.t_eq0(v), True)
        return 0

    def holds(self, vm, st, c):
        from .state import all_cases
        if isinstance(c, CConst):
            return not isinstance(c.v, T) and c.v == 0
        if isinstance(c, CPred) and any(
                isinstance(p, str) and vm.array_preds[p] is self
                for p in c.preds):
            return True
        if isinstance(c, CAtom):
            return False
        if isinstance(c, CStore) and self.holds(vm, st, c.base):
            v = c.val
            if isinstance(v, T):
                v = st.facts.const(v)
            if v is not None and v == 0:
                return True
            m = host_at(vm, st, self.mask, c.idx)
            if isinstance(m, T):
                m = st.facts.known(m)
            if m is False:
                return True

        def one(s):
            idx = tuple(s.sym("hi", 0, n - 1) for n in self.shape)
            m = host_at(vm, s, self.mask, idx)
            if not (s.decide(m) if isinstance(m, T) else m):
                return True
            v = ceval(vm, s, c, idx)
            if isinstance(v, T):
                v = s.facts.const(v)
            return v is not None and v == 0
        return all(r is True for _, r in all_cases(vm, st, one))


class NotIn:
    """predicate on integers: no index of a set entry of a row"""
    def __init__(self, row):
        self.row = CHost(np.array(row, dtype=bool))

    def cond(self, vm, st, v):
        lo, hi = st.facts.rng(v) if isinstance(v, T) else (v, v)
        if lo < 0 or hi >= len(self.row.arr):
            return None
        return host_at(vm, st, self.row, (v,))

    def check(self, vm, st, v):
        c = self.cond(vm, st, v)
        return c is not None and not (
            st.decide(c) if isinstance(c, T) else c)

    def assume(self, vm, st, v):
        c = self.cond(vm, st, v)
        if isinstance(c, T):
            st.facts.assume(c, False)


def generic_range(vm, st, c, shape):
    """bounds of the elements of an array content"""
    from .state import all_cases
    if isinstance(c, CPred):
        c = c.base
    if isinstance(c, CAtom):
        if c.lo is not None:
            return c.lo, c.hi
        return INFO.get(c.dtype, (-INF, INF))
    if isinstance(c, CConst) and not isinstance(c.v, T):
        return c.v, c.v
    if isinstance(c, CStore):
        a = generic_range(vm, st, c.base, shape)
        v = c.val
        b = st.facts.rng(v) if isinstance(v, T) else (v, v)
        return a and (min(a[0], b[0]), max(a[1], b[1]))

    def one(s):
        idx = []
        for n in shape:
            i = s.sym("gi", 0, INF if isinstance(n, T) else n - 1)
            if isinstance(n, T):
                s.facts = s.facts.copy()
                s.facts.assume(terms.t_le0(terms.sub(terms.add(i, 1), n)),
                               True)
            idx.append(i)
        v = ceval(vm, s, c, tuple(idx))
        return s.facts.rng(v) if isinstance(v, T) else (v, v)
    lo, hi = INF, -INF
    for s, r in all_cases(vm, st, one):
        if r is None:
            return None
        lo, hi = min(lo, r[0]), max(hi, r[1])
    return (lo, hi) if lo <= hi else None


def generic_preds(vm, st, c, n, names, terms_):
    """predicates (of names) that all elements of a one-dimensional array
    satisfy, and terms (of terms_) that they all differ from"""
    from .containers import known_ne
    from .state import all_cases
    i = st.sym("gi", 0, INF if isinstance(n, T) else n - 1)
    if isinstance(n, T):
        st.facts.assume(terms.t_le0(terms.sub(terms.add(i, 1), n)), True)
    names, terms_ = set(names), set(terms_)
    old, vm.summarise = vm.summarise, False
    try:
        rs = all_cases(vm, st, lambda s: ceval(vm, s, c, (i,)))
    finally:
        vm.summarise = old
    for s, v in rs:
        if v is None or isinstance(v, float):
            return set(), set()
        for p in sorted(names):
            rs = all_cases(vm, s, lambda s2: vm.elem_preds[p].check(
                vm, s2, v))
            if not all(r is True for _, r in rs):
                names.discard(p)
        terms_ = set(t for t in terms_ if known_ne(s, v, t))
        if not names and not terms_:
            break
    return names, terms_


def sparse(vm, st, c, shape):
    r = sparse_(vm, st, c, shape)
    return r and (r[0], list(dict.fromkeys(r[1])))


def sparse_(vm, st, c, shape):
    """(value, indices): a content has the value everywhere but perhaps at
    the indices; None if there is no such short list"""
    if isinstance(c, CConst):
        return None if isinstance(c.v, T) else (c.v, [])
    if isinstance(c, CHost):
        if c.arr.size < 64 or np.count_nonzero(c.arr) > vm.sparse - 4:
            return None
        return (0, [tuple(int(x) for x in p)
                    for p in np.transpose(np.nonzero(c.arr))])
    if isinstance(c, CStore):
        r = sparse(vm, st, c.base, shape)
        return r and (r[0], r[1] + [c.idx])
    if isinstance(c, CMask):
        a, b = sparse(vm, st, c.base, shape), sparse(vm, st, c.src, shape)
        if a is None or b is None or a[0] != b[0]:
            return None
        return (a[0], a[1] + b[1])
    if isinstance(c, CMap):
        rs = [sparse(vm, st, a, shape) for a in c.args]
        if c.op == "where":
            # whatever the condition
            if None not in rs[1:] and rs[1][0] == rs[2][0]:
                return (rs[1][0], rs[1][1] + rs[2][1])
            return None
        if c.op in ("*", "&") and not is_float(c.dtype):
            for r in rs:
                if r is not None and r[0] == 0:
                    return r
        if None in rs:
            return None
        v = apply_op(vm, st, c.op, [r[0] for r in rs], c.dts, c.dtype)
        if isinstance(v, T):
            return None
        return (v, sum([r[1] for r in rs], []))
    if isinstance(c, CBcast):
        r = sparse(vm, st, c.base, c.shape)
        return r if r and not r[1] else None
    if isinstance(c, CView) and len(c.view) == 1 and c.view[0][0] == "aff":
        r = sparse(vm, st, c.base, None)
        if r is None:
            return None
        out = []
        for p in r[1]:
            i = [None] * len(shape)
            ok = True
            for x, (start, step, d) in zip(p, c.view[0][1]):
                if d is None:
                    ok = ok and eq_index(vm, st, x, start)
                    continue
                if step != 1 or i[d] is not None:
                    return None
                i[d] = terms.sub(x, start)
                lo = vm.cmp_num(st, "<=", 0, i[d])
                hi = vm.cmp_num(st, "<", i[d], shape[d])
                ok = ok and (st.decide(lo) if isinstance(lo, T) else lo) and \
                    (st.decide(hi) if isinstance(hi, T) else hi)
            if ok:
                if None in i:
                    return None
                out.append(tuple(i))
        return (r[0], out)
    return None


def sparse_nonzero(vm, st, c, shape):
    """nonzero positions, in order, of a content with few of them"""
    r = sparse(vm, st, c, shape)
    if r is None or r[0] or len(r[1]) > vm.sparse:
        return None

    def yes(op, a, b):
        x = vm.cmp_num(st, op, a, b)
        return st.decide(x) if isinstance(x, T) else x
    out = []
    for p in r[1]:
        if any(all(eq_index(vm, st, i, j) for i, j in zip(p, q))
               for q in out):
            continue
        v = ceval(vm, st, c, p)
        if isinstance(v, T):
            v = st.decide(wrap(vm, st, "bool_", v))
        if not v:
            out.append(p)
            continue
        out.append(p + (True,))
    pos = []
    for p in out:
        if len(p) > len(shape):
            p = p[:-1]
            for k, q in enumerate(pos):
                for i, j in zip(p, q):
                    if not yes("==", i, j):
                        before = yes("<", i, j)
                        break
                else:
                    before = False
                if before:
                    pos.insert(k, p)
                    break
            else:
                pos.append(p)
    return pos


def bit_permutation(vm, st, c, n):
    """index array content that permutes range(n) by permuting the bits of
    the index: the inverse, as (from bit, to bit, length) runs"""
    if isinstance(n, T) or n < 2 or n & (n - 1):
        return None
    j = st.sym("perm#%d" % bit_permutation.n, 0, n - 1)
    bit_permutation.n += 1
    x = ceval(vm, st, c, (j,))
    nb = n.bit_length() - 1
    if x is j:
        return ((0, 0, nb),)
    b = st.facts.bits(x)
    if b is None or len(b) != nb:
        return None
    at = {}
    for i, u in enumerate(b):
        if u in (0, 1) or len(u[1]) != 1:
            return None
        (l,) = u[1]
        if l[0] is not j:
            return None
        at[l[1]] = i
    if len(at) != nb:
        return None
    runs = []
    for to in range(nb):
        if runs and runs[-1][0] + runs[-1][2] == at[to]:
            runs[-1][2] += 1
        else:
            runs.append([at[to], to, 1])
    return tuple(tuple(r) for r in runs)


bit_permutation.n = 0


def resolve_mod(st, t):
    """decide the wrap of a modular index when only two cases remain"""
    if isinstance(t, T) and t.op == "mod" and not isinstance(t.args[1], T):
        x, m = t.args
        lo, hi = st.facts.rng(x)
        if lo >= 0 and hi < 2 * m:
            if st.decide(terms.t_le0(terms.sub(terms.add(x, 1), m))):
                return x
            return terms.sub(x, m)
        if lo >= -m and hi < m:
            if st.decide(terms.t_le0(terms.scale(x, -1))):
                return x
            return terms.add(x, m)
    return t


def norm_idx(vm, st, i, n):
    """index normalised for negative values, bounds-checked"""
    if not isinstance(i, T):
        i = int(i)
        if not isinstance(n, T):
            if i < -n or i >= n:
                raise vm.exc(st, "IndexError", "index %d is out of bounds "
                             "for axis with size %d" % (i, n))
            return i + n if i < 0 else i
        if i < 0:
            if not st.decide(terms.t_le0(terms.sub(-i, n))):
                raise vm.exc(st, "IndexError", "index out of bounds")
            return terms.add(n, i)
        if not st.decide(terms.t_le0(terms.sub(i + 1, n))):
            raise vm.exc(st, "IndexError", "index out of bounds")
        return i
    i = st.facts.n(i)
    if not isinstance(i, T):
        return norm_idx(vm, st, i, n)
    if i.sort == "bool":
        i = b2i(i)
    neg = vm.cmp_num(st, "<", i, 0)
    if st.decide(neg) if isinstance(neg, T) else neg:
        i = terms.add(i, n)
        ok = vm.cmp_num(st, ">=", i, 0)
    else:
        ok = vm.cmp_num(st, "<", i, n)
    if not (st.decide(ok) if isinstance(ok, T) else ok):
        raise vm.exc(st, "IndexError", "index out of bounds")
    c = st.facts.const(i)
    return i if c is None else c


def host_at(vm, st, c, idx):
    idx = [st.facts.const(i) if isinstance(i, T) and
           st.facts.const(i) is not None else i for i in idx]
    dt = dname(c.arr.dtype)
    if all(not isinstance(i, T) for i in idx):
        return host_m(c.arr[tuple(int(i) for i in idx)], dt)
    # restrict to the constant coordinates
    key = tuple(slice(None) if isinstance(i, T) else int(i) for i in idx)
    sub = c.arr[key]
    vals = np.unique(sub)
    if len(vals) == 1:
        return host_m(vals[0], dt)
    if is_float(dt):
        return terms.mk("sel", ("host%d" % id(c),) + tuple(idx), "float")
    if dt == "bool_":
        b = bool_pattern(sub, [i for i in idx if isinstance(i, T)])
        if b is not None:
            return b
    sidx = [i for i in idx if isinstance(i, T)]
    if sub.ndim == 1 and len(sub) > 2:
        v0, k = int(sub[0]), int(sub[1]) - int(sub[0])
        if np.array_equal(sub, v0 + k * np.arange(len(sub))):
            lo, hi = st.facts.rng(sidx[0])
            if lo >= 0 and hi < len(sub):
                return terms.add(v0, sidx[0], k)
    if c.tbl is None:
        c.tbl = {}
    kk = tuple(None if isinstance(i, slice) else i for i in key)
    if sub.size > 70000:
        t = terms.mk("sel", (c,) + tuple(st.facts.n(i) if isinstance(i, T)
                                         else i for i in idx), "int")
        st.facts.iv.setdefault(t, (int(vals[0]), int(vals[-1]), 1, 0))
        return t
    tb = c.tbl.get(kk)
    if tb is None:
        items = tuple((tuple(int(q) for q in k), int(v))
                      for k, v in np.ndenumerate(sub))
        tb = c.tbl[kk] = Table.get(items)
    # narrow by the ranges of the indices
    rngs = [st.facts.rng(i) for i in sidx]
    t = terms.mk("tbl", (tuple(st.facts.n(i) for i in sidx), tb), "int")
    sl = tuple(slice(max(0, int(l)) if l > -INF else 0,
                     int(h) + 1 if h < INF else None) for l, h in rngs)
    part = sub[sl]
    if part.size:
        a, b = int(part.min()), int(part.max())
        if a == b:
            return host_m(a, dt)
        f = st.facts.iv.get(t)
        if not f or f[0] < a or f[1] > b:
            st.facts.iv[t] = (max(a, f[0]) if f else a,
                              min(b, f[1]) if f else b, 1, 0)
    if dt == "bool_":
        return terms.t_eq0(terms.sub(t, 1))
    return t


def bool_pattern(sub, sidx):
    """A boolean array that depends on one index only, in few intervals of
    its remainder: as a condition on that index."""
    axes = [d for d in range(sub.ndim)
            if not (sub == np.take(sub, [0], axis=d)).all()]
    if len(axes) != 1:
        return None
    d = axes[0]
    row = np.moveaxis(sub, d, 0).reshape(sub.shape[d], -1)[:, 0]
    n = len(row)
    p = n
    while p % 2 == 0 and (row[:p // 2] == row[p // 2:p]).all():
        p //= 2
    i = sidx[d]
    if p < n:
        i = terms.t_mod(i, p)
    ivs = []
    for k in range(p):
        if row[k]:
            if ivs and ivs[-1][1] == k - 1:
                ivs[-1][1] = k
            else:
                ivs.append([k, k])
    if len(ivs) > 4:
        return None
    acc = False
    for a, b in ivs:
        t = True
        if a > 0:
            t = terms.t_le0(terms.sub(a, i))
        if b < p - 1:
            u = terms.t_le0(terms.sub(i, b))
            t = u if t is True else terms.mk("band", (t, u), "bool")
        acc = t if acc is False else terms.mk("bor", (acc, t), "bool")
    return acc


# -------------------------------------------------------------------- views

def apply_view(vm, st, view, idx):
    for s in view:
        if s[0] == "aff":
            out = []
            for start, step, d in s[1]:
                if d is None:
                    out.append(start)
                else:
                    out.append(terms.add(start, terms.scale(idx[d], step))
                               if not isinstance(step, T) else
                               terms.add(start, int_op(vm, st, "*", idx[d],
                                                       step)))
            idx = tuple(out)
        elif s[0] == "reshape":
            frm, to = s[1], s[2]
            flat = 0
            for i, n in zip(idx, to):
                flat = terms.add(scale_t(vm, st, flat, n), i)
            out = []
            for n in reversed(frm[1:]):
                out.append(simp(st, i_mod(vm, st, flat, n)))
                flat = simp(st, i_fdiv(vm, st, flat, n))
            out.append(flat)
            idx = tuple(reversed(out)) if frm else ()
        elif s[0] == "perm":
            out = [None] * len(idx)
            for k, a in enumerate(s[1]):
                out[a] = idx[k]
            idx = tuple(out)
    return tuple(simp(st, i) if isinstance(i, T) else i for i in idx)


def scale_t(vm, st, x, n):
    return int_op(vm, st, "*", x, n)


def uninvert(vm, st, view, shape, sidx):
    """index within the viewed region of storage index sidx, or None"""
    idx = sidx
    # the inverse of each step, last to first; sizes are checked for "aff"
    for k in range(len(view) - 1, -1, -1):
        s = view[k]
        if s[0] == "aff":
            sizes = s[2]
            out = {}
            for (start, step, d), i in zip(s[1], idx):
                if d is None:
                    if not eq_index(vm, st, i, start):
                        return None
                    continue
                off = terms.sub(i, start)
                n = sizes[d]
                if step != 1:
                    if step < 0:
                        off, stp = terms.scale(off, -1), -step
                    else:
                        stp = step
                    r = i_mod(vm, st, off, stp)
                    z = vm.cmp_num(st, "==", r, 0)
                    if not (st.decide(z) if isinstance(z, T) else z):
                        return None
                    off = simp(st, i_fdiv(vm, st, st.facts.n(off), stp))
                    off = exact_div(st, off)
                lo = vm.cmp_num(st, ">=", off, 0)
                if not (st.decide(lo) if isinstance(lo, T) else lo):
                    return None
                hi = vm.cmp_num(st, "<", off, n)
                if not (st.decide(hi) if isinstance(hi, T) else hi):
                    return None
                out[d] = off
            idx = tuple(out.get(d, 0) for d in range(len(sizes)))
        elif s[0] == "reshape":
            idx = apply_view(vm, st, (("reshape", s[2], s[1]),), idx)
        elif s[0] == "perm":
            idx = tuple(idx[a] for a in s[1])
    return idx


def exact_div(st, t):
    return t


# ------------------------------------------------------------ scalar algebra

CMP = {"<", "<=", ">", ">=", "==", "!="}


def apply_op(vm, st, op, vals, dts, dt):
    """elementwise operation on mathematical values of dtypes dts, result
    dtype dt"""
    if op == "astype":
        return wrap(vm, st, dt, vals[0], dts[0])
    if op in CMP:
        x, y = vals
        r = vm.cmp_num(st, op, x, y)
        return r
    if op == "neg":
        x = vals[0]
        if is_float(dt):
            return terms.f_mul(wrap(vm, st, dt, x), -1.0)
        return wrap(vm, st, dt, terms.scale(b2i(st.facts.n(x)), -1))
    if op == "inv":
        x = st.facts.n(vals[0])
        if dt == "bool_":
            return terms.t_not(x)
        return wrap(vm, st, dt, terms.sub(-1, x))
    if op == "abs":
        x = st.facts.n(vals[0])
        if not isinstance(x, T):
            return abs(x)
        lo, hi = st.facts.rng(x)
        if lo >= 0:
            return x
        return terms.mk("abs", (x,), x.sort)
    if op == "not":
        return terms.t_not(wrap(vm, st, "bool_", st.facts.n(vals[0])))
    if op in ("land", "lor"):
        x, y = [wrap(vm, st, "bool_", st.facts.n(v)) for v in vals]
        return vm.bool_op("&" if op == "land" else "|", x, y)
    if op in ("min", "max"):
        x, y = [wrap(vm, st, dt, st.facts.n(v)) for v in vals]
        return minmax(st, op, x, y)
    if op == "clip":
        x, lo, hi = [wrap(vm, st, dt, st.facts.n(v)) for v in vals]
        return minmax(st, "min", minmax(st, "max", x, lo), hi)
    if op == "where":
        c, x, y = vals
        c = wrap(vm, st, "bool_", c)
        if st.decide(c) if isinstance(c, T) else c:
            return wrap(vm, st, dt, x)
        return wrap(vm, st, dt, y)
    if op in ("floor", "ceil", "rint", "trunc", "round", "sqrt", "sin", "cos",
              "exp", "log", "sign"):
        x = st.facts.n(vals[0])
        if not isinstance(x, T):
            return host_m(getattr(np, op)(x), dt)
        if x.sort == "int" and op in ("floor", "ceil", "rint", "trunc",
                                      "round"):
            return wrap(vm, st, dt, x)
        if op in ("floor", "ceil", "rint", "trunc", "round"):
            i = terms.t_round({"round": "rint"}.get(op, op), x)
            return terms.to_f(i)
        return terms.mk(op, (x,), "float")
    if op in ("isnan", "isfinite", "isinf"):
        x = st.facts.n(vals[0])
        if not isinstance(x, T):
            return bool(getattr(np, op)(x))
        if x.sort != "float":
            return op == "isfinite"
        return terms.mk(op, (x,), "bool")
    x, y = [st.facts.n(v) for v in vals]
    if dt == "bool_" and op in ("&", "|", "^"):
        return vm.bool_op(op, x, y)
    if dt == "bool_" and op in ("+", "*"):
        return vm.bool_op("|" if op == "+" else "&", x, y)
    if is_float(dt):
        x, y = wrap(vm, st, dt, x), wrap(vm, st, dt, y)
        if not isinstance(x, T) and not isinstance(y, T):
            with np.errstate(all="ignore"):
                f = npd(dt).type
                a, b = f(x), f(y)
                r = {"+": lambda: a + b, "-": lambda: a - b,
                     "*": lambda: a * b, "/": lambda: a / b,
                     "**": lambda: a ** b, "//": lambda: a // b,
                     "%": lambda: a % b}.get(op)
                if r is None:
                    raise vm.exc(st, "TypeError", "ufunc not supported")
                return float(r())
        if op in ("&", "|", "^", "<<", ">>"):
            raise vm.exc(st, "TypeError", "ufunc not supported for floats")
        return float_op(vm, st, op, x, y)
    if op == "/":
        raise Unmodelled("integer true division dtype")
    if op in ("<<", ">>"):
        # shifts beyond the width give 0
        k = st.concretize(y, 70) if isinstance(y, T) else y
        if k is not None and k >= npd(dt).itemsize * 8:
            if op == "<<":
                return 0
            if st.facts.rng(x)[0] >= 0:
                return 0
    if op in ("//", "%") and not isinstance(y, T) and y == 0:
        return 0
    r = int_op(vm, st, op, x, y)
    return wrap(vm, st, dt, r)


def minmax(st, op, x, y):
    if not isinstance(x, T) and not isinstance(y, T):
        return min(x, y) if op == "min" else max(x, y)
    sort = "float" if any(isinstance(v, float) or (
        isinstance(v, T) and v.sort == "float") for v in (x, y)) else "int"
    l, h = st.facts.rng(x)
    l2, h2 = st.facts.rng(y)
    if op == "min":
        if h <= l2:
            return x
        if h2 <= l:
            return y
    else:
        if l >= h2:
            return x
        if l2 >= h:
            return y
    if sort == "float":
        x, y = terms.to_f(x), terms.to_f(y)
    return terms.t_minmax(op, x, y, sort)


def op_dtype(st, op, ops):
    """(operand calculation dtype, result dtype) of a binary ufunc"""
    dt = result_type(st, ops)
    if op in CMP:
        return dt, "bool_"
    if op == "/":
        if kind(dt) < 2:
            dt = "float64"
        return dt, dt
    if op in ("<<", ">>", "//", "%", "**") and dt == "bool_":
        dt = "int8"
    return dt, dt


_HOST = {"+": np.add, "-": np.subtract, "*": np.multiply,
         "/": np.true_divide, "//": np.floor_divide, "%": np.remainder,
         "&": np.bitwise_and, "|": np.bitwise_or, "^": np.bitwise_xor,
         "<<": np.left_shift, ">>": np.right_shift, "**": np.power,
         "<": np.less, "<=": np.less_equal, ">": np.greater,
         ">=": np.greater_equal, "==": np.equal, "!=": np.not_equal,
         "min": np.minimum, "max": np.maximum}


class NP:
    pass


def install(vm):
    P = NP()
    vm.np = P
    cl = vm.classes

    # ------------------------------------------------------------- helpers
    def dtype_of(st, d, default="float64"):
        if d is None:
            return default
        if isinstance(d, str):
            d = d.lstrip("=")
            if d in INFO or d in ("float32", "float64", "bool_", "float16"):
                return d
            if d in ALIASES:
                return ALIASES[d]
            try:
                return dname(np.dtype(d))
            except TypeError as e:
                raise vm.exc(st, "TypeError", str(e))
        if isinstance(d, Ref):
            o = st.get(d)
            if isinstance(o, HClass):
                n = o.name
                if n in NPTYPES:
                    return n
                if n in ALIASES:
                    return ALIASES[n]
            if isinstance(o, HInst) and "name" in o.attrs:
                n = o.attrs["name"]
                return ALIASES.get(n, n)
        raise Unmodelled("dtype %r" % (d,))
    P.dtype_of = dtype_of

    def new_array(st, content, shape, dtype):
        shape = tuple(shape)
        s = st.new(HStore(content, shape, dtype))
        return st.new(HArr(s, (), shape, dtype))
    P.new_array = new_array

    def host_array(st, arr):
        return new_array(st, CHost(arr), arr.shape, dname(arr.dtype))
    P.host_array = host_array

    def content_of(st, o):
        """content expression indexed by the array's own index"""
        c = snap(st.get(o.store).content)
        if o.view == ():
            return c
        h = host(st, o)
        if h is not None and h.size <= 2 ** 16:
            return CHost(np.array(h))
        if isinstance(c, CConst):
            return c
        return CView(c, o.view)

    def is_arr(st, v):
        return isinstance(v, Ref) and isinstance(st.get(v), HArr)
    P.is_arr = is_arr

    def host(st, o):
        """the concrete array, or None"""
        s = st.get(o.store)
        c = s.content
        if isinstance(c, CConst) and not isinstance(c.v, T) and all(
                not isinstance(n, T) for n in o.shape):
            n = 1
            for k in o.shape:
                n *= k
            if n <= 2 ** 16:
                return np.full(o.shape, c.v, dtype=npd(o.dtype))
            return None
        if not isinstance(c, CHost):
            return None
        a = c.arr
        for s in reversed(o.view):
            if s[0] == "aff":
                key, newd = [], []
                for start, step, d in s[1]:
                    if d is None:
                        if isinstance(start, T):
                            return None
                        key.append(int(start))
                    else:
                        n = s[2][d]
                        if isinstance(start, T) or isinstance(n, T):
                            return None
                        stop = start + step * n
                        key.append(slice(start, None if stop < 0 else stop,
                                         step) if n else slice(0, 0))
                        newd.append(d)
                a = a[tuple(key)]
                # insert new axes
                for d in range(len(s[2])):
                    if d not in newd:
                        a = np.expand_dims(a, d)
            elif s[0] == "reshape":
                if any(isinstance(n, T) for n in s[2]):
                    return None
                a = a.reshape(s[2])
            elif s[0] == "perm":
                a = a.transpose(s[1])
        return a
    P.host = host

    def shape_val(st, shape):
        return tuple(mkA("int", n) for n in shape)

    def read_shape(st, v):
        n = num_of(vm, st, v)
        if n is not None:
            return (dim(st, n[1]),)
        items = vm.concrete_items(st, v)
        if items is None:
            raise Unmodelled("array shape")
        out = []
        for i in items:
            n = num_of(vm, st, i)
            if n is None:
                raise vm.exc(st, "TypeError", "bad shape")
            if is_float(n[0]):
                raise vm.exc(st, "TypeError", "'float' object cannot be "
                             "interpreted as an integer")
            out.append(dim(st, n[1]))
        return tuple(out)

    def dim(st, m):
        if isinstance(m, T):
            c = st.facts.const(m)
            return m if c is None else c
        return int(m)

    def size_of(vm_, st, shape):
        n = 1
        for k in shape:
            n = int_op(vm, st, "*", n, k)
        return n

    # operand: (is_array, dtype/ty, content-or-m, shape)
    def operand(st, v):
        if is_arr(st, v):
            o = st.get(v)
            if o.shape == ():
                m = ceval(vm, st, st.get(o.store).content, apply_view(
                    vm, st, o.view, ()))
                return (False, o.dtype, m, ())
            return (True, o.dtype, None, o.shape, o)
        n = num_of(vm, st, v)
        if n is not None:
            return (False, n[0], n[1], ())
        if isinstance(v, (tuple,)) or (isinstance(v, Ref) and isinstance(
                st.get(v), HList)):
            r = asarray(st, v)
            o = st.get(r)
            return (True, o.dtype, None, o.shape, o)
        return None

    def bshape(st, shapes):
        n = max(len(s) for s in shapes)
        out = []
        for i in range(n):
            cur = 1
            for s in shapes:
                j = i - (n - len(s))
                if j < 0:
                    continue
                d = s[j]
                if not isinstance(d, T) and d == 1:
                    continue
                if not isinstance(cur, T) and cur == 1:
                    cur = d
                    continue
                if cur is d or (not isinstance(cur, T) and not isinstance(
                        d, T) and cur == d):
                    continue
                if isinstance(cur, T) or isinstance(d, T):
                    e = vm.cmp_num(st, "==", cur, d)
                    if st.decide(e) if isinstance(e, T) else e:
                        continue
                raise vm.exc(st, "ValueError", "operands could not be "
                             "broadcast together")
            out.append(cur)
        return tuple(out)

    def bc(st, op, shape):
        """content of operand broadcast to shape"""
        if not op[0]:
            return CConst(st.facts.n(op[2]) if isinstance(op[2], T)
                          else op[2])
        c = content_of(st, op[4])
        if op[3] == shape:
            return c
        return CBcast(c, op[3])

    def same(x, y):
        return x is y or (not isinstance(x, T) and not isinstance(y, T)
                          and x == y)

    def binop(vm_, st, op, a, b):
        x, y = operand(st, a), operand(st, b)
        if x is None or y is None:
            for v, o, pre in ((a, b, "__"), (b, a, "__r")):
                pass
            raise vm.exc(st, "TypeError", "unsupported operand for %s" % op)
        if not x[0] and not y[0]:
            return scalar_binop(vm, st, op, x[1], x[2], y[1], y[2])
        dts = (full(x[1]), full(y[1]))
        cdt, rdt = op_dtype(st, op, [x[:3], y[:3]])
        if op in ("&", "|", "^", "<<", ">>") and is_float(cdt):
            raise vm.exc(st, "TypeError", "ufunc '%s' not supported for the "
                         "input types" % op)
        if op == "-" and cdt == "bool_":
            raise vm.exc(st, "TypeError", "numpy boolean subtract")
        shape = bshape(st, (x[3], y[3]))
        # concrete
        hx = host(st, x[4]) if x[0] else (
            None if isinstance(x[2], T) else x[2])
        hy = host(st, y[4]) if y[0] else (
            None if isinstance(y[2], T) else y[2])
        if hx is not None and hy is not None and op in _HOST:
            with np.errstate(all="ignore"):
                p = np.asarray(hx).astype(npd(cdt)) if x[0] else \
                    host_cast(hx, cdt)
                q = np.asarray(hy).astype(npd(cdt)) if y[0] else \
                    host_cast(hy, cdt)
                r = _HOST[op](p, q)
            return host_array(st, np.asarray(r).astype(npd(rdt)))
        cx, cy = bc(st, x, shape), bc(st, y, shape)
        if cdt != dts[0] and not isinstance(cx, CConst):
            cx = CMap("astype", (cx,), cdt, (dts[0],))
        if cdt != dts[1] and not isinstance(cy, CConst):
            cy = CMap("astype", (cy,), cdt, (dts[1],))
        if isinstance(cx, CConst):
            cx = CConst(wrap(vm, st, cdt, cx.v))
        if isinstance(cy, CConst):
            cy = CConst(wrap(vm, st, cdt, cy.v))
        return new_array(st, CMap(op, (cx, cy), rdt, (cdt, cdt)), shape, rdt)
    P.binop = binop

    def host_cast(v, dt):
        if dt in INFO:
            lo, hi = INFO[dt]
            return np.array((int(v) - lo) % (hi - lo + 1) + lo, npd(dt))
        return np.array(v, npd(dt))

    def compare(vm_, st, op, a, b):
        if op in ("==", "!=") and (operand(st, a) is None or
                                   operand(st, b) is None):
            return op == "!="
        if op not in CMP:
            raise Unmodelled("array comparison %s" % op)
        return binop(vm, st, op, a, b)
    P.compare = compare

    def unary(vm_, st, op, v):
        o = st.get(v)
        if op == "+":
            return v
        name = {"-": "neg", "~": "inv", "abs": "abs", "not": "not"}.get(
            op, op)
        dt = o.dtype
        if name == "inv" and is_float(dt):
            raise vm.exc(st, "TypeError", "ufunc 'invert' not supported")
        return ufunc1(st, name, v, dt)
    P.unary = unary

    _H1 = {"neg": np.negative, "inv": np.invert, "abs": np.abs,
           "not": np.logical_not, "floor": np.floor, "ceil": np.ceil,
           "rint": np.rint, "trunc": np.trunc, "sqrt": np.sqrt,
           "isnan": np.isnan, "isfinite": np.isfinite, "isinf": np.isinf}

    def ufunc1(st, name, v, rdt):
        o = st.get(v)
        h = host(st, o)
        if h is not None and name in _H1:
            with np.errstate(all="ignore"):
                return host_array(st, np.asarray(_H1[name](h)).astype(
                    npd(rdt)))
        return new_array(st, CMap(name, (content_of(st, o),), rdt,
                                  (o.dtype,)), o.shape, rdt)

    def iop(vm_, st, op, a, b):
        """a op= b on an array"""
        o = st.get(a)
        y = operand(st, b)
        if y is None:
            raise vm.exc(st, "TypeError", "unsupported operand")
        cdt, rdt = op_dtype(st, op, [(True, o.dtype, None), y[:3]])
        # same-kind casting
        if not can_cast_same_kind(rdt, o.dtype):
            raise vm.exc(st, "TypeError", "Cannot cast ufunc output from %s "
                         "to %s with casting rule 'same_kind'" % (
                             rdt, o.dtype))
        sh = bshape(st, (o.shape, y[3]))
        if len(sh) != len(o.shape) or not all(
                same(p, q) for p, q in zip(sh, o.shape)):
            raise vm.exc(st, "ValueError", "non-broadcastable output")
        r = binop(vm, st, op, a, b)
        assign_all(st, a, r)
        return a
    P.iop = iop

    def can_cast_same_kind(frm, to):
        return np.can_cast(npd(frm), npd(to), "same_kind")

    def assign_all(st, a, val):
        """a[...] = val"""
        o = st.get(a)
        write_region(st, o, o.view, o.shape, val)

    # ---------------------------------------------------------- attributes
    def getattr_(vm_, st, v, o, name):
        if name == "shape":
            return shape_val(st, o.shape)
        if name == "size":
            return mkA("int", size_of(vm, st, o.shape))
        if name == "ndim":
            return len(o.shape)
        if name == "dtype":
            return dtype_obj(st, o.dtype)
        if name == "itemsize":
            return npd(o.dtype).itemsize
        if name == "T":
            return transpose(st, v, None)
        if name == "flat":
            return reshape(st, v, (size_of(vm, st, o.shape),))
        if name == "base":
            return None
        m = AM.get(name)
        if m is None:
            if name.startswith("__"):
                return NULL
            if hasattr(np.ndarray, name):
                raise Unmodelled("ndarray.%s" % name)
            return NULL
        return BM(m, v)
    P.getattr = getattr_

    def dtype_obj(st, dt):
        n = "bool" if dt == "bool_" else dt
        return st.new(HInst(cl["dtype"], {
            "name": n, "itemsize": npd(dt).itemsize, "type": cl[dt]}))

    vm.defcls("dtype")

    def new_dtype(vm_, st, a, kw):
        return dtype_obj(st, dtype_of(st, a[1]))
    vm.boot.get(cl["dtype"]).attrs["__new__"] = NF("__new__", new_dtype)

    def eq_dtype(st, a, b):
        x = st.get(a).attrs["name"]
        try:
            y = dtype_of(st, b)
        except (PyRaise, Unmodelled):
            return False
        return x == ("bool" if y == "bool_" else y)
    P.eq_dtype = eq_dtype
    da = vm.boot.get(cl["dtype"]).attrs
    da["__eq__"] = NF("__eq__", lambda vm_, st, a, kw: eq_dtype(
        st, a[0], a[1]))
    da["__ne__"] = NF("__ne__", lambda vm_, st, a, kw: not eq_dtype(
        st, a[0], a[1]))
    da["__hash__"] = NF("__hash__", lambda vm_, st, a, kw: hash(
        st.get(a[0]).attrs["name"]))
    da["__str__"] = NF("__str__", lambda vm_, st, a, kw:
                       st.get(a[0]).attrs["name"])
    da["__repr__"] = NF("__repr__", lambda vm_, st, a, kw:
                        "dtype('%s')" % st.get(a[0]).attrs["name"])

    def scalar_attr(vm_, st, v, name):
        if v.ty in NPTYPES:
            if name == "dtype":
                return dtype_obj(st, v.ty)
            if name == "shape":
                return ()
            if name in ("item", "tolist"):
                return BM(NF(name, lambda vm, s, a, k: item(vm, s, a[0])), v)
            if name in ("real",):
                return v
            if name == "astype":
                return BM(NF(name, lambda vm, s, a, k: scalar_new(
                    s, dtype_of(s, a[1]), a[0])), v)
            if name in ("all", "any"):
                return BM(NF(name, lambda vm, s, a, k: scalar_new(
                    s, "bool_", a[0])), v)
            if name in ("max", "min", "copy", "sum"):
                return BM(NF(name, lambda vm, s, a, k: a[0]), v)
            if name == "ndim":
                return 0
            if name == "size":
                return 1
            if name == "T":
                return v
            if name in ("mean",):
                return BM(NF(name, lambda vm, s, a, k: scalar_new(
                    s, "float64", a[0])), v)
            if name in ("reshape", "flatten", "ravel"):
                return BM(NF(name, lambda vm, s, a, k: reshape(
                    s, asarray(s, a[0]), read_shape(
                        s, a[1] if len(a) == 2 else a[1:])
                    if len(a) > 1 else (1,))), v)
        m = vm.methods.get(v.ty, {}).get(name)
        if m is not None:
            return BM(m, v)
        if name == "__class__":
            return vm.class_of(st, v)
        if v.ty in NPTYPES and hasattr(np.generic, name) and \
                not name.startswith("__"):
            raise Unmodelled("scalar attribute %s" % name)
        if v.ty == "int":
            m = vm.methods.get("int", {}).get(name)
            if m is not None:
                return BM(m, v)
        return NULL
    P.scalar_attr = scalar_attr

    def item(vm_, st, v):
        """python scalar of a 0-d/1-element array or numpy scalar"""
        if isinstance(v, A):
            k = kind(v.ty)
            return mkA("bool" if k == 0 else "int" if k == 1 else "float",
                       v.m)
        if not is_arr(st, v):
            return v
        o = st.get(v)
        n = size_of(vm, st, o.shape)
        if isinstance(n, T) or n != 1:
            raise vm.exc(st, "TypeError" if False else "ValueError",
                         "can only convert an array of size 1")
        m = aget(st, o, tuple(0 for _ in o.shape))
        k = kind(o.dtype)
        return mkA("bool" if k == 0 else "int" if k == 1 else "float", m)
    P.item = item

    def truth(vm_, st, v):
        o = st.get(v)
        n = size_of(vm, st, o.shape)
        if isinstance(n, T):
            n = st.concretize(n)
        if n != 1:
            if n == 0:
                return False
            raise vm.exc(st, "ValueError", "The truth value of an array "
                         "with more than one element is ambiguous")
        return vm.truth(st, item(vm, st, v))
    P.truth = truth

    def setshape(vm_, st, v, val):
        o = st.get(v)
        sh = read_shape(st, val)
        r = st.get(reshape(st, v, sh))
        m = st.mut(v)
        m.view, m.shape = r.view, r.shape
    P.setshape = setshape

    def aget(st, o, idx):
        return ceval(vm, st, st.get(o.store).content,
                     apply_view(vm, st, o.view, idx))
    P.aget = aget

    def scal(st, dt, m):
        if isinstance(m, T):
            m = st.facts.n(m)
            if isinstance(m, T) and m.sort == "int":
                c = st.facts.const(m)
                if c is not None:
                    m = c
        return A(dt, m)

    # -------------------------------------------------------------- scalars
    def scalar_binop(vm_, st, op, ta, ma, tb, mb):
        if op in CMP:
            r = vm.cmp_num(st, op, ma, mb)
            return A("bool_", r)
        cdt, rdt = op_dtype(st, op, [(False, ta, ma), (False, tb, mb)])
        if op in ("&", "|", "^", "<<", ">>") and is_float(cdt):
            raise vm.exc(st, "TypeError", "ufunc '%s' not supported for the "
                         "input types" % op)
        x, y = wrap(vm, st, cdt, st.facts.n(ma)), wrap(
            vm, st, cdt, st.facts.n(mb))
        if op == "**" and cdt in INFO and isinstance(mb, int) and mb < 0:
            raise vm.exc(st, "ValueError", "Integers to negative integer "
                         "powers are not allowed.")
        return scal(st, rdt, apply_op(vm, st, op, [x, y], (cdt, cdt), rdt))
    P.scalar_binop = scalar_binop

    def scalar_unop(vm_, st, op, ty, m):
        name = {"-": "neg", "~": "inv"}[op]
        if op == "-" and ty == "bool_":
            raise vm.exc(st, "TypeError", "numpy boolean negative")
        return scal(st, ty, apply_op(vm, st, name, [m], (ty,), ty))
    P.scalar_unop = scalar_unop

    def scalar_new(st, dt, v):
        if is_arr(st, v):
            o = st.get(v)
            if o.shape == ():
                return scal(st, dt, wrap(vm, st, dt, aget(st, o, ())))
            return astype(st, v, dt)
        n = num_of(vm, st, v)
        if n is None:
            if isinstance(v, str):
                try:
                    return scal(st, dt, host_m(npd(dt).type(v), dt))
                except ValueError as e:
                    raise vm.exc(st, "ValueError", str(e))
            if isinstance(v, (tuple,)) or isinstance(v, Ref):
                return astype(st, asarray(st, v), dt)
            raise vm.exc(st, "TypeError", "cannot convert to %s" % dt)
        m = n[1]
        if is_float(n[0]) and dt in INFO and not isinstance(m, T) and (
                m != m or abs(m) == INF):
            raise vm.exc(st, "ValueError" if m != m else "OverflowError",
                         "cannot convert float to integer")
        if n[0] == "int" and dt in INFO and not isinstance(m, T):
            if not -2 ** 63 <= m < 2 ** 64:
                raise vm.exc(st, "OverflowError", "Python int too large")
        return scal(st, dt, wrap(vm, st, dt, st.facts.n(m)))
    P.scalar_new = scalar_new

    def np_new(dt):
        def f(vm_, st, a, kw):
            if len(a) < 2:
                return scal(st, dt, host_m(0, dt))
            return scalar_new(st, dt, a[1])
        return f
    for t in NPTYPES:
        vm.boot.get(cl[t]).attrs["__new__"] = NF("__new__", np_new(t))

    def nd_new(vm_, st, a, kw):
        sh = read_shape(st, kw.get("shape", a[1] if len(a) > 1 else None))
        dt = dtype_of(st, kw.get("dtype", a[2] if len(a) > 2 else None))
        return uninit(st, sh, dt)
    vm.boot.get(cl["ndarray"]).attrs["__new__"] = NF("__new__", nd_new)
    vm.uninit_count = 0

    def uninit(st, sh, dt):
        vm.uninit_count += 1
        return new_array(st, CAtom("uninit%d" % next_id(), dt, None, None),
                         sh, dt)
    ids = [0]

    def next_id():
        ids[0] += 1
        return ids[0]
    P.next_id = next_id

    def fresh_array(st, name, shape, dt, lo=None, hi=None):
        return new_array(st, CAtom("%s%d" % (name, next_id()), dt, lo, hi),
                         shape, dt)
    P.fresh_array = fresh_array

    # ------------------------------------------------------------- indexing
    def slice_spec(st, s, n):
        def v(x):
            if x is None:
                return None
            k = num_of(vm, st, x)
            if k is None or is_float(k[0]):
                raise vm.exc(st, "TypeError", "slice indices must be "
                             "integers")
            m = k[1]
            if isinstance(m, T):
                c = st.facts.const(m)
                return m if c is None else c
            return int(m)
        lo, hi, step = v(s.start), v(s.stop), v(s.step)
        if isinstance(step, T):
            raise Unmodelled("symbolic slice step")
        if all(not isinstance(x, T) for x in (lo, hi, n)):
            r = range(n)[slice(lo, hi, step)]
            return r.start, r.step, len(r)
        step = 1 if step is None else step
        if step <= 0:
            raise Unmodelled("negative symbolic slice")

        def clampi(x, default):
            if x is None:
                return default
            neg = vm.cmp_num(st, "<", x, 0)
            if st.decide(neg) if isinstance(neg, T) else neg:
                x = terms.add(x, n)
                neg = vm.cmp_num(st, "<", x, 0)
                if st.decide(neg) if isinstance(neg, T) else neg:
                    return 0
                return x
            big = vm.cmp_num(st, ">", x, n)
            if st.decide(big) if isinstance(big, T) else big:
                return n
            return x
        lo = clampi(lo, 0)
        hi = clampi(hi, n)
        d = terms.sub(hi, lo)
        neg = vm.cmp_num(st, "<", d, 0)
        if st.decide(neg) if isinstance(neg, T) else neg:
            d = 0
        if step != 1:
            d = i_fdiv(vm, st, terms.add(d, step - 1), step)
        return lo, step, d

    def norm_key(st, o, k):
        """list of components: ("int", m) ("slice", start, step, n)
        ("new",) ("arr", operand) ("mask", operand)"""
        if isinstance(k, tuple):
            ks = list(k)
        else:
            ks = [k]
        out = []
        nreal = 0
        for x in ks:
            if x is None or x is Ellipsis:
                pass
            elif is_arr(st, x) and st.get(x).dtype == "bool_":
                nreal += len(st.get(x).shape)
            else:
                nreal += 1
        rank = len(o.shape)
        ell = False
        full_ks = []
        for x in ks:
            if x is Ellipsis:
                full_ks += [slice(None)] * (rank - nreal)
                ell = True
            else:
                full_ks.append(x)
        if not ell:
            full_ks += [slice(None)] * (rank - nreal)
        if nreal > rank:
            raise vm.exc(st, "IndexError", "too many indices for array")
        d = 0
        for x in full_ks:
            if x is None:
                out.append(("new",))
                continue
            if isinstance(x, slice):
                out.append(("slice",) + slice_spec(st, x, o.shape[d]))
                d += 1
                continue
            if is_arr(st, x):
                xo = st.get(x)
                if xo.dtype == "bool_":
                    out.append(("mask", x))
                    d += len(xo.shape)
                    continue
                if is_float(xo.dtype):
                    raise vm.exc(st, "IndexError", "arrays used as indices "
                                 "must be of integer (or boolean) type")
                if xo.shape == ():
                    out.append(("int", norm_idx(vm, st, aget(st, xo, ()),
                                                o.shape[d])))
                else:
                    out.append(("arr", x))
                d += 1
                continue
            n = num_of(vm, st, x)
            if n is not None:
                if n[0] in ("bool", "bool_"):
                    raise Unmodelled("boolean scalar index")
                if is_float(n[0]):
                    raise vm.exc(st, "IndexError", "only integers, slices "
                                 "and integer or boolean arrays are valid "
                                 "indices")
                out.append(("int", norm_idx(vm, st, n[1], o.shape[d])))
                d += 1
                continue
            if isinstance(x, (tuple, range, ARange)) or (isinstance(x, Ref)
                                                 and isinstance(
                                                     st.get(x), HList)):
                r = asarray(st, x)
                if st.get(r).dtype == "bool_":
                    out.append(("mask", r))
                    d += len(st.get(r).shape)
                else:
                    out.append(("arr", r))
                    d += 1
                continue
            raise vm.exc(st, "IndexError", "invalid index %s" %
                         vm.describe(st, x))
        return out

    def aff_step(comps):
        specs, sizes = [], []
        for c in comps:
            if c[0] == "int":
                specs.append((c[1], 0, None))
            elif c[0] == "slice":
                specs.append((c[1], c[2], len(sizes)))
                sizes.append(c[3])
            elif c[0] == "new":
                sizes.append(1)
        return ("aff", tuple(specs), tuple(sizes)), tuple(sizes)

    def add_view(o, step):
        if step[0] == "aff":
            ident = len(step[1]) == len(step[2]) and all(
                s[0] == 0 and s[1] == 1 and s[2] == i
                for i, s in enumerate(step[1])) and all(
                    same(p, q) for p, q in zip(step[2], o.shape))
            if ident:
                return o.view
        return (step,) + o.view

    def expand_mask(st, comps):
        """replace boolean masks by index arrays (nonzero)"""
        out = []
        for c in comps:
            if c[0] == "mask":
                out += [("arr", r) for r in nonzero(st, c[1])]
            else:
                out.append(c)
        return out

    def getitem(vm_, st, v, k):
        o = st.get(v)
        if isinstance(k, str):
            raise vm.exc(st, "IndexError", "only integers, slices...")
        comps = norm_key(st, o, k)
        if all(c[0] == "int" for c in comps):
            return scal(st, o.dtype, aget(st, o, tuple(c[1] for c in comps)))
        if all(c[0] in ("int", "slice", "new") for c in comps):
            step, sizes = aff_step(comps)
            return st.new(HArr(o.store, add_view(o, step), sizes, o.dtype))
        # fancy
        if len(comps) == 1 and comps[0][0] == "mask":
            mo = st.get(comps[0][1])
            if len(mo.shape) == len(o.shape):
                hm, ho = host(st, mo), host(st, o)
                if hm is not None and ho is not None:
                    return host_array(st, ho[hm])
        comps = expand_mask(st, comps)
        arrs = [c for c in comps if c[0] == "arr"]
        ao = [st.get(c[1]) for c in arrs]
        ho = host(st, o)
        hs = [host(st, a) for a in ao]
        if ho is not None and all(h is not None for h in hs) and all(
                c[0] != "int" or not isinstance(c[1], T) for c in comps):
            key, j = [], 0
            for c in comps:
                if c[0] == "int":
                    key.append(int(c[1]))
                elif c[0] == "slice":
                    if isinstance(c[1], T) or isinstance(c[3], T):
                        key = None
                        break
                    stop = c[1] + c[2] * c[3]
                    key.append(slice(c[1], stop if stop >= 0 else None,
                                     c[2]))
                elif c[0] == "new":
                    key.append(None)
                else:
                    key.append(hs[j])
                    j += 1
            if key is not None:
                try:
                    return host_array(st, np.asarray(ho[tuple(key)]))
                except IndexError as e:
                    raise vm.exc(st, "IndexError", str(e))
        if any(c[0] == "new" for c in comps):
            raise Unmodelled("newaxis with index arrays")
        bsh = bshape(st, [a.shape for a in ao])
        # position of the broadcast dims
        pos = [i for i, c in enumerate(comps) if c[0] in ("arr", "int")]
        apos = [i for i, c in enumerate(comps) if c[0] == "arr"]
        contiguous = pos == list(range(pos[0], pos[-1] + 1))
        spec, shape = [], []
        out_of = {}
        first = pos[0] if contiguous else 0
        nd = 0
        placed = False
        adims = None
        if not contiguous:
            shape += list(bsh)
            adims = tuple(range(len(bsh)))
            placed = True
        for i, c in enumerate(comps):
            if c[0] == "slice":
                out_of[i] = len(shape)
                shape.append(c[3])
            elif not placed:
                adims = tuple(range(len(shape), len(shape) + len(bsh)))
                shape += list(bsh)
                placed = True
        for i, c in enumerate(comps):
            n = o.shape[i]
            if c[0] == "int":
                spec.append(("int", c[1]))
            elif c[0] == "slice":
                spec.append(("aff", c[1], c[2], out_of[i]))
            else:
                a = st.get(c[1])
                cc = positions(content_of(st, a))
                if a.shape != bsh:
                    cc = CBcast(cc, a.shape)
                spec.append(("arr", cc, adims, n))
        return new_array(st, CGather(content_of(st, o), tuple(spec)),
                         tuple(shape), o.dtype)
    P.getitem = getitem

    def positions(c):
        """0, 1, 2, ... indexed by positions: the positions"""
        while isinstance(c, CGather) and len(c.spec) == 1 and \
                c.spec[0][0] == "arr":
            b = c.base
            if isinstance(b, CHost):
                b = b.arr
                if b.ndim != 1 or b.dtype.kind not in "iu" or not (
                        b == np.arange(b.size)).all():
                    break
            elif not isinstance(b, CRange) or not same(b.start, 0) or \
                    not same(b.step, 1):
                break
            c = c.spec[0][1]
        return c

    def set_content(st, store, c):
        m = st.mut(store)
        m.content = c

    def value_content(st, val, shape, dt):
        """content in the region's index space, converted to dt"""
        y = operand(st, val)
        if y is None:
            raise vm.exc(st, "TypeError", "cannot assign %s to array" %
                         vm.describe(st, val))
        if not y[0]:
            return CConst(wrap(vm, st, dt, st.facts.n(y[2]) if isinstance(
                y[2], T) else y[2]))
        k = len(y[3]) - len(shape)
        if k > 0 and all(not isinstance(n, T) and n == 1 for n in y[3][:k]):
            # leading ones are dropped
            sh = tuple(y[3][k:])
            step = ("aff", tuple((0, 0, None) for _ in range(k)) + tuple(
                (0, 1, i) for i in range(len(sh))), sh)
            y = (True, y[1], y[2], sh, HArr(
                y[4].store, add_view(y[4], step), sh, y[1]))
        b = bshape(st, (shape, y[3]))
        if len(b) != len(shape):
            raise vm.exc(st, "ValueError", "could not broadcast input array")
        for p, q in zip(b, shape):
            if not same(p, q):
                raise vm.exc(st, "ValueError", "could not broadcast input "
                             "array from shape %r into shape %r" % (
                                 y[3], shape))
        c = bc(st, y, shape)
        if y[1] != dt:
            c = CMap("astype", (c,), dt, (y[1],))
        return c

    def write_region(st, o, view, shape, val):
        s = st.get(o.store)
        src = value_content(st, val, shape, o.dtype)
        hs = concrete_content(src, shape, o.dtype)
        if isinstance(s.content, CConst) and not isinstance(
                s.content.v, T) and hs is not None:
            materialise(st, o)
            s = st.get(o.store)
        if isinstance(s.content, CHost) and hs is not None:
            tgt = HArr(o.store, view, shape, o.dtype)
            m, arr = own(st, o.store)
            t = host(st, tgt)
            if t is not None and (t.base is not None or t is arr):
                t[...] = hs
                return
        if all(x[0] == "aff" and all(
                p[0] == 0 and p[1] == 1 and p[2] == i
                for i, p in enumerate(x[1])) for x in view) and all(
                    same(a, b) for a, b in zip(shape, s.shape)):
            set_content(st, o.store, src)
            return
        set_content(st, o.store, CRegion(snap(s.content), view, shape, src,
                                         o.dtype))

    def concrete_content(c, shape, dt):
        if isinstance(c, CConst):
            return None if isinstance(c.v, T) else c.v
        if isinstance(c, CHost):
            return c.arr
        if isinstance(c, CMap) and c.op == "astype" and isinstance(
                c.args[0], CHost):
            with np.errstate(all="ignore"):
                return c.args[0].arr.astype(npd(dt))
        return None

    def materialise(st, o):
        s = st.get(o.store)
        if isinstance(s.content, CConst) and not isinstance(s.content.v, T) \
                and all(not isinstance(n, T) for n in s.shape):
            n = 1
            for k in s.shape:
                n *= k
            if n <= 2 ** 17:
                c = CHost(np.full(s.shape, s.content.v, dtype=npd(s.dtype)))
                set_content(st, o.store, c)

    def own(st, store):
        m = st.mut(store)
        c = m.content
        if c.owner is not st.token:
            c2 = CHost(c.arr.copy())
            c2.owner = st.token
            m.content = c2
            c = c2
        c.tbl = None
        return m, c.arr

    def setitem(vm_, st, v, k, val):
        o = st.get(v)
        comps = norm_key(st, o, k)
        if all(c[0] == "int" for c in comps):
            y = operand(st, val)
            if y is None:
                raise vm.exc(st, "TypeError", "cannot assign %s" %
                             vm.describe(st, val))
            if y[0]:
                n = size_of(vm, st, y[3])
                if not isinstance(n, T) and n == 1:
                    m = aget(st, y[4], tuple(0 for _ in y[3]))
                else:
                    raise vm.exc(st, "ValueError", "setting an array element "
                                 "with a sequence.")
            else:
                m = y[2]
            m = wrap(vm, st, o.dtype, st.facts.n(m) if isinstance(m, T)
                     else m)
            idx = apply_view(vm, st, o.view, tuple(c[1] for c in comps))
            store_at(st, o, idx, m)
            return
        if all(c[0] in ("int", "slice", "new") for c in comps):
            step, sizes = aff_step(comps)
            write_region(st, o, add_view(o, step), sizes, val)
            return
        if len(comps) == 1 and comps[0][0] == "mask" and len(
                st.get(comps[0][1]).shape) == len(o.shape):
            mo = st.get(comps[0][1])
            for p, q in zip(mo.shape, o.shape):
                if not same(p, q):
                    raise vm.exc(st, "IndexError", "boolean index did not "
                                 "match indexed array")
            y = operand(st, val)
            if y is None:
                raise vm.exc(st, "TypeError", "cannot assign")
            s = st.get(o.store)
            if not y[0]:
                m = wrap(vm, st, o.dtype, y[2])
                hm, ho = host(st, mo), host(st, o)
                if hm is not None and isinstance(s.content, CHost) and \
                        not isinstance(m, T) and o.view == ():
                    _, arr = own(st, o.store)
                    arr[hm] = m
                    return
                mc = content_of(st, mo)
                if o.view == ():
                    set_content(st, o.store, CMask(snap(s.content), mc,
                                                   CConst(m), o.dtype))
                else:
                    # masked write through a view
                    cur = content_of(st, o)
                    set_content(st, o.store, CRegion(
                        snap(s.content), o.view, o.shape,
                        CMask(cur, mc, CConst(m), o.dtype), o.dtype))
                return
            hm, ho = host(st, mo), host(st, o)
            hy = host(st, y[4])
            if hm is not None and hy is not None and isinstance(
                    s.content, CHost) and o.view == ():
                _, arr = own(st, o.store)
                try:
                    arr[hm] = hy
                except ValueError as e:
                    raise vm.exc(st, "ValueError", str(e))
                return
            atom = CAtom("scat%d" % next_id(), o.dtype, None, None)
            mc = content_of(st, mo)
            if o.view == ():
                set_content(st, o.store, CMask(snap(s.content), mc, atom,
                                               o.dtype))
                return
            set_content(st, o.store, CScatter(snap(s.content), atom, None))
            return
        # index arrays
        comps = expand_mask(st, comps)
        s = st.get(o.store)
        if len(o.view) == 1 and o.view[0][0] == "aff" and all(
                c[0] in ("int", "slice", "arr") for c in comps) and all(
                comps[d][0] != "arr" or (same(start, 0) and same(step, 1)
                                         and same(n, o.shape[d]))
                for (start, step, d), n in zip(o.view[0][1], s.shape)
                if d is not None) and len(
                    {d for _, _, d in o.view[0][1] if d is not None}) == len(
                        comps):
            # through a view: the same store, written directly
            full = []
            for start, step, d in o.view[0][1]:
                if d is None:
                    full.append(("int", start))
                elif comps[d][0] == "arr":
                    full.append(comps[d])
                else:
                    c = comps[d]
                    i = terms.add(start, int_op(vm, st, "*", c[1], step))
                    full.append(("int", i) if c[0] == "int" else
                                ("slice", i, int_op(vm, st, "*", c[2], step),
                                 c[3]))
            if all(c[0] != "slice" or not isinstance(c[1], T) and
                   not isinstance(c[2], T) and not isinstance(c[3], T)
                   for c in full) and len(
                       [c for c in full if c[0] == "arr"]) < 2:
                comps = full
                o = HArr(o.store, (), s.shape, o.dtype)
        arrs = [st.get(c[1]) for c in comps if c[0] == "arr"]
        hs = [host(st, a) for a in arrs]
        y = operand(st, val)
        if isinstance(s.content, CConst):
            materialise(st, o)
            s = st.get(o.store)
        if isinstance(s.content, CHost) and all(h is not None for h in hs) \
                and y is not None:
            hv = host(st, y[4]) if y[0] else (
                None if isinstance(y[2], T) else y[2])
            if hv is None and y[0]:
                hv = elements(st, y[4], 1024)
                hv = None if hv is None or any(
                    isinstance(x, T) for x in hv) else np.array(
                        hv, dtype=npd(y[1])).reshape(y[3])
            if hv is not None and all(
                    c[0] != "int" or not isinstance(c[1], T)
                    for c in comps) and o.view == ():
                key, j = [], 0
                for c in comps:
                    if c[0] == "int":
                        key.append(int(c[1]))
                    elif c[0] == "slice":
                        key.append(slice(c[1], c[1] + c[2] * c[3], c[2]))
                    elif c[0] == "new":
                        key.append(None)
                    else:
                        key.append(hs[j])
                        j += 1
                _, arr = own(st, o.store)
                try:
                    arr[tuple(key)] = np.asarray(hv).astype(arr.dtype)
                except (IndexError, ValueError) as e:
                    raise vm.exc(st, type(e).__name__, str(e))
                return
        atom = CAtom("scat%d" % next_id(), o.dtype, None, None)
        where = None
        if o.view == () and comps and all(c[0] == "int" for c in comps[:1]):
            k0 = []
            for c in comps:
                if c[0] != "int":
                    break
                k0.append(c[1])
            where = tuple(k0)
        if o.view == () and y is not None and len(comps) == len(
                o.shape) and comps[-1][0] == "arr" and all(
                c[0] == "int" for c in comps[:-1]):
            xo = arrs[0]
            n = o.shape[-1]
            if len(xo.shape) == 1 and same(xo.shape[0], n):
                inv = bit_permutation(vm, st, content_of(st, xo), n)
                if inv is not None:
                    set_content(st, o.store, CPerm(
                        snap(s.content), tuple(c[1] for c in comps[:-1]),
                        inv, value_content(st, val, (n,), o.dtype)))
                    return
        if o.view == () and y is not None and len(comps) == len(
                o.shape) and all(c[0] in ("int", "arr") for c in comps) and \
                all(h is not None and h.ndim == 1 and h.size <= 32 and
                    h.size == hs[0].size for h in hs) and (
                        not y[0] or tuple(y[3]) in (hs[0].shape, (1,))):
            # known positions, one by one
            vals = []
            for j in range(hs[0].size):
                m = aget(st, y[4], (j if y[3] != (1,) else 0,)) if y[0] \
                    else y[2]
                vals.append(wrap(vm, st, o.dtype, st.facts.n(m)
                                 if isinstance(m, T) else m))
            for j, m in enumerate(vals):
                k, idx = 0, []
                for c, n in zip(comps, o.shape):
                    if c[0] == "int":
                        idx.append(c[1])
                    else:
                        idx.append(norm_idx(vm, st, int(hs[k][j]), n))
                        k += 1
                store_at(st, o, tuple(idx), m)
            return
        set_content(st, o.store, CScatter(snap(s.content), atom, where))
    P.setitem = setitem

    def store_at(st, o, idx, m):
        s = st.get(o.store)
        c = s.content
        if all(not isinstance(i, T) for i in idx) and not isinstance(m, T):
            if isinstance(c, CConst):
                materialise(st, o)
                c = st.get(o.store).content
            if isinstance(c, CHost):
                _, arr = own(st, o.store)
                arr[tuple(int(i) for i in idx)] = m
                return
        h = vm.hooks.get("array_store")
        if h:
            h(vm, st, o, idx, m)
        if isinstance(c, CStore) and c.idx == idx:
            c = c.base
        set_content(st, o.store, CStore(snap(c), idx, m))
    P.store_at = store_at

    # ---------------------------------------------------------- shape changes
    def reshape(st, v, shape, order="C"):
        o = st.get(v)
        shape = list(shape)
        tot = size_of(vm, st, o.shape)
        unk = [i for i, n in enumerate(shape)
               if not isinstance(n, T) and n == -1]
        if len(unk) > 1:
            raise vm.exc(st, "ValueError", "can only specify one unknown "
                         "dimension")
        sym = isinstance(tot, T) or any(isinstance(n, T) for n in shape)
        if unk:
            k = 1
            for i, n in enumerate(shape):
                if i != unk[0]:
                    k = int_op(vm, st, "*", k, n)
            if not sym:
                if k == 0 or tot % k:
                    raise vm.exc(st, "ValueError", "cannot reshape array of "
                                 "size %d" % tot)
                shape[unk[0]] = tot // k
            else:
                if not isinstance(k, T) and k == 1:
                    shape[unk[0]] = tot
                else:
                    ok = terms.mk("divides", (k, tot), "bool")
                    if not st.decide(ok):
                        raise vm.exc(st, "ValueError", "cannot reshape")
                    shape[unk[0]] = terms.mk("quot", (tot, k), "int")
                    st.facts.iv.setdefault(shape[unk[0]], (0, INF, 1, 0))
        else:
            k = size_of(vm, st, shape)
            if not sym:
                if k != tot:
                    raise vm.exc(st, "ValueError", "cannot reshape array of "
                                 "size %d into shape %r" % (tot, tuple(
                                     shape)))
            elif k is not tot:
                e = vm.cmp_num(st, "==", k, tot)
                if not (st.decide(e) if isinstance(e, T) else e):
                    raise vm.exc(st, "ValueError", "cannot reshape")
        shape = tuple(shape)
        if len(shape) == len(o.shape) and all(
                same(p, q) for p, q in zip(shape, o.shape)):
            return st.new(HArr(o.store, o.view, o.shape, o.dtype))
        if order == "F":
            r = st.get(transpose(st, v, None))
            step = ("reshape", r.shape, tuple(reversed(shape)))
            x = st.new(HArr(r.store, (step,) + r.view,
                            tuple(reversed(shape)), o.dtype))
            return transpose(st, x, None)
        # dropping or adding unit axes is affine
        a = [(i, n) for i, n in enumerate(o.shape)
             if isinstance(n, T) or n != 1]
        b = [(i, n) for i, n in enumerate(shape)
             if isinstance(n, T) or n != 1]
        if len(a) == len(b) and all(same(x[1], y[1]) for x, y in zip(a, b)):
            specs = [(0, 0, None)] * len(o.shape)
            for (i, n), (j, _) in zip(a, b):
                specs[i] = (0, 1, j)
            step = ("aff", tuple(specs), shape)
        else:
            step = ("reshape", o.shape, shape)
        return st.new(HArr(o.store, (step,) + o.view, shape, o.dtype))
    P.reshape = reshape

    def transpose(st, v, axes):
        o = st.get(v)
        n = len(o.shape)
        if axes is None:
            axes = tuple(reversed(range(n)))
        axes = tuple(a % n for a in axes)
        if n < 2:
            return st.new(HArr(o.store, o.view, o.shape, o.dtype))
        return st.new(HArr(o.store, (("perm", axes),) + o.view,
                           tuple(o.shape[a] for a in axes), o.dtype))

    def astype(st, v, dt, copy=True):
        o = st.get(v)
        h = host(st, o)
        if h is not None:
            with np.errstate(all="ignore"):
                if is_float(o.dtype) and dt in INFO:
                    hh = np.trunc(h)
                    return host_array(st, hh.astype(npd(dt)))
                return host_array(st, np.array(h.astype(npd(dt))))
        c = content_of(st, o)
        if dt != o.dtype:
            c = CMap("astype", (c,), dt, (o.dtype,))
        return new_array(st, c, o.shape, dt)
    P.astype = astype

    def copy(st, v):
        o = st.get(v)
        h = host(st, o)
        if h is not None:
            return host_array(st, np.array(h))
        return new_array(st, content_of(st, o), o.shape, o.dtype)
    P.copy = copy

    def asarray(st, v, dt=None):
        if is_arr(st, v):
            o = st.get(v)
            if dt is None or dt == o.dtype:
                return v
            return astype(st, v, dt)
        n = num_of(vm, st, v)
        if n is not None:
            d = dt or full(n[0])
            return new_array(st, CConst(wrap(vm, st, d, n[1])), (), d)
        if isinstance(v, ARange):
            ln = vm.length(st, v)
            ln = ln.m if isinstance(ln, A) else ln
            return new_array(st, CRange(v.lo, v.step), (ln,), dt or "int64")
        if isinstance(v, Ref) and isinstance(st.get(v), HList) and \
                st.get(v).abs is not None:
            ab = st.get(v).abs
            return new_array(st, CAtom("lst%d" % next_id(), dt or "int64",
                                       None, None), (ab.n,), dt or "int64")
        if isinstance(v, A) and v.ty == "bytes":
            raise Unmodelled("array of opaque bytes")
        items = vm.concrete_items(st, v)
        if items is None:
            raise Unmodelled("array from %s" % vm.describe(st, v))
        subs = [asarray(st, i, dt) for i in items]
        if not subs:
            return host_array(st, np.zeros((0,), npd(dt or "float64")))
        os = [st.get(s) for s in subs]
        shp = os[0].shape
        for o in os[1:]:
            if len(o.shape) != len(shp) or not all(
                    same(p, q) for p, q in zip(o.shape, shp)):
                raise vm.exc(st, "ValueError", "ragged array")
        d = dt
        if d is None:
            if all(o.shape == () for o in os):
                ns = [num_of(vm, st, i) for i in items]
                d = full(ns[0][0]) if ns[0] else os[0].dtype
                for q in ns[1:]:
                    d = promote(d, full(q[0]))
            else:
                d = os[0].dtype
                for o in os[1:]:
                    d = promote(d, o.dtype)
        hs = [host(st, o) for o in os]
        if all(h is not None for h in hs):
            return host_array(st, np.array(hs).astype(npd(d)))
        cs = []
        for o in os:
            c = content_of(st, o)
            if o.dtype != d:
                c = CMap("astype", (c,), d, (o.dtype,))
            cs.append(c)
        return new_array(st, CStack(tuple(cs), 0), (len(cs),) + shp, d)
    P.asarray = asarray

    vm.nz_names = {}
    vm.sum_names = {}
    vm.summarise = False
    vm.sparse = 0    # short lists of positions are at most this long

    def items_array(st, items):
        c = CHost(np.zeros(len(items), dtype=np.int64))
        for i, x in enumerate(items):
            c = CStore(c, (i,), x)
        return new_array(st, c, (len(items),), "int64")

    def nonzero(st, v):
        o = st.get(v)
        h = host(st, o)
        if h is not None:
            return tuple(host_array(st, x) for x in np.nonzero(h))

        def zero(s, m):
            c = s.facts.const(m) if isinstance(m, T) else m
            return None if c is None else bool(c == 0)
        if forall(st, o, zero) is True:
            return tuple(host_array(st, np.zeros(0, dtype=np.int64))
                         for d in o.shape)
        c = content_of(st, o)
        if vm.sparse and not any(isinstance(n, T) for n in o.shape):
            pos = sparse_nonzero(vm, st, c, o.shape)
            if pos is not None:
                return tuple(items_array(st, [p[d] for p in pos])
                             for d in range(len(o.shape)))
        # the same contents have the same nonzero elements
        name = vm.nz_names.get((c, o.shape))
        if name is None:
            name = vm.nz_names[c, o.shape] = next_id()
        n = terms.mk("sym", ("nnz", 10 ** 7 + name), "int")
        tot = size_of(vm, st, o.shape)
        hi = tot if not isinstance(tot, T) else INF
        st.facts.iv.setdefault(n, (0, hi, 1, 0))
        r = tuple(new_array(st, CNz(name, c, o.shape, d, True), (n,),
                            "int64") for d in range(len(o.shape)))
        hk = vm.hooks.get("nonzero")
        if hk:
            hk(vm, st, o, c, n, name)
        return r
    P.nonzero = nonzero

    # ------------------------------------------------------------ reductions
    def elements(st, o, limit=4096):
        n = size_of(vm, st, o.shape)
        if isinstance(n, T) or n > limit:
            return None
        return [aget(st, o, i) for i in np.ndindex(*o.shape)]

    def generic(st, o):
        """element at an arbitrary index of a nonempty array"""
        idx = []
        for n in o.shape:
            i = st.sym("gi", 0, terms.sub(n, 1) if not isinstance(n, T)
                       else INF)
            if isinstance(n, T):
                st.facts.assume(terms.t_le0(terms.sub(terms.add(i, 1), n)))
            idx.append(i)
        return tuple(idx)

    def forall(st, o, pred):
        """does pred(state, element) hold for every element?  True / False
        (surely not for some) / None"""
        from .state import all_cases
        c = st.get(o.store).content

        def one(s):
            s.facts = s.facts.copy()
            for n in o.shape:
                if isinstance(n, T):
                    s.facts.assume(terms.t_le0(terms.sub(1, n)))
            idx = generic(s, o)
            m = ceval(vm, s, c, apply_view(vm, s, o.view, idx))
            return pred(s, m)
        res = []
        for s, r in all_cases(vm, st, one):
            if isinstance(r, T):
                r = s.facts.known(r)
            res.append(r)
        if not res or all(r is True for r in res):
            return True
        return None
    P.forall = forall

    def reduce_(vm_, st, name, v, kw, axis=None):
        if not is_arr(st, v):
            if operand(st, v) is not None and operand(st, v)[0]:
                v = asarray(st, v)
            elif isinstance(v, (A, int, float, bool)):
                if name in ("all", "any"):
                    return scal(st, "bool_", wrap(
                        vm, st, "bool_", num_of(vm, st, v)[1]))
                if name == "mean":
                    return scalar_new(st, "float64", v)
                if name == "count_nonzero":
                    return mkA("int", b2i(wrap(vm, st, "bool_", num_of(
                        vm, st, v)[1])))
                n = num_of(vm, st, v)
                return scal(st, full(n[0]), n[1])
            elif isinstance(v, Ref):
                v = asarray(st, v)
        o = st.get(v)
        h = host(st, o)
        if h is not None:
            try:
                r = getattr(np, name)(h, axis=axis)
            except ValueError as e:
                raise vm.exc(st, "ValueError", str(e))
            if isinstance(r, np.ndarray):
                return host_array(st, r)
            if name == "count_nonzero":
                return int(r)
            dt = dname(r.dtype)
            return scal(st, dt, host_m(r, dt))
        if axis is not None:
            raise Unmodelled("reduction along an axis")
        if name in ("all", "any"):
            want = name == "all"

            def pred(s, m):
                b = wrap(vm, s, "bool_", m)
                return b if want else terms.t_not(b)
            r = forall(st, o, pred)
            if r is True:
                n = size_of(vm, st, o.shape)
                return A("bool_", want)
            c = content_of(st, o)
            few = sparse(vm, st, c, o.shape) if vm.sparse and not any(
                isinstance(n, T) for n in o.shape) else None
            if few is not None and len(few[1]) <= vm.sparse and \
                    pred(st, few[0]) is True:
                acc = want
                for p in few[1]:
                    acc = vm.bool_op("&" if want else "|", acc, wrap(
                        vm, st, "bool_", ceval(vm, st, c, p)))
                return A("bool_", acc)
            els = elements(st, o, 64)
            if els is not None:
                acc = want
                for m in els:
                    acc = vm.bool_op("&" if want else "|", acc,
                                     wrap(vm, st, "bool_", m))
                return A("bool_", acc)
            t = terms.mk(name, (snap(content_of(st, o)),) + tuple(o.shape),
                         "bool")
            return A("bool_", t)
        if name == "count_nonzero":
            r = forall(st, o, lambda s, m: terms.t_not(
                wrap(vm, s, "bool_", m)))
            if r is True:
                return 0
            t = terms.mk("countnz", (snap(content_of(st, o)),) +
                         tuple(o.shape), "int")
            n = size_of(vm, st, o.shape)
            st.facts.iv.setdefault(t, (0, n if not isinstance(n, T)
                                       else INF, 1, 0))
            return mkA("int", t)
        dt = o.dtype
        if name in ("sum", "prod"):
            dt = {0: "int64", 1: "uint64" if dt.startswith("u") else "int64",
                  2: dt}[kind(dt)]
        if name in ("mean", "std", "median", "var"):
            dt = "float64" if kind(dt) < 2 else dt
        if name in ("argmax", "argmin"):
            dt = "int64"
        els = elements(st, o, 40) if name in ("sum", "min", "max") else None
        if els:
            r = wrap(vm, st, dt, els[0])
            for m in els[1:]:
                if name == "sum":
                    r = apply_op(vm, st, "+", [r, m], (dt, dt), dt)
                else:
                    r = minmax(st, name, r, m)
            return scal(st, dt, r)
        sort = "float" if is_float(dt) else "bool" if dt == "bool_" else \
            "int"
        t = terms.mk("red", (name, snap(content_of(st, o))) +
                     tuple(o.shape), sort)
        if name in ("min", "max", "amin", "amax"):
            n = size_of(vm, st, o.shape)
            if isinstance(n, T):
                e = vm.cmp_num(st, "==", n, 0)
                if st.decide(e) if isinstance(e, T) else e:
                    raise vm.exc(st, "ValueError", "zero-size array to "
                                 "reduction operation")
        if dt in INFO:
            st.facts.iv.setdefault(t, INFO[dt] + (1, 0))
        return scal(st, dt, t)
    P.reduce = reduce_

    # --------------------------------------------------------------- methods
    AM = {}

    def am(name):
        def d(fn):
            AM[name] = NF(name, fn)
            return fn
        return d

    def shape_args(st, a, kw):
        if "newshape" in kw:
            return read_shape(st, kw["newshape"])
        if "shape" in kw:
            return read_shape(st, kw["shape"])
        if len(a) == 1:
            return read_shape(st, a[0])
        return read_shape(st, tuple(a))

    @am("reshape")
    def m_reshape(vm_, st, a, kw):
        return reshape(st, a[0], shape_args(st, a[1:], kw),
                       kw.get("order", "C"))

    @am("flatten")
    def m_flat(vm_, st, a, kw):
        return copy(st, reshape(st, a[0], (size_of(vm, st, st.get(
            a[0]).shape),), kw.get("order", a[1] if len(a) > 1 else "C")))

    @am("ravel")
    def m_ravel(vm_, st, a, kw):
        return reshape(st, a[0], (size_of(vm, st, st.get(a[0]).shape),))

    @am("squeeze")
    def m_squeeze(vm_, st, a, kw):
        return reshape(st, a[0], tuple(n for n in st.get(a[0]).shape
                                       if isinstance(n, T) or n != 1))

    @am("astype")
    def m_astype(vm_, st, a, kw):
        return astype(st, a[0], dtype_of(st, a[1] if len(a) > 1 else
                                         kw["dtype"]))

    @am("copy")
    def m_copy(vm_, st, a, kw):
        return copy(st, a[0])

    @am("view")
    def m_view(vm_, st, a, kw):
        o = st.get(a[0])
        if len(a) > 1:
            d = dtype_of(st, a[1])
            if d != o.dtype:
                raise Unmodelled("reinterpreting view")
        return st.new(HArr(o.store, o.view, o.shape, o.dtype))

    @am("transpose")
    def m_tr(vm_, st, a, kw):
        ax = a[1:]
        if len(ax) == 1 and isinstance(ax[0], tuple):
            ax = ax[0]
        return transpose(st, a[0], tuple(ax) or None)

    @am("swapaxes")
    def m_sw(vm_, st, a, kw):
        ax = list(range(len(st.get(a[0]).shape)))
        ax[a[1]], ax[a[2]] = ax[a[2]], ax[a[1]]
        return transpose(st, a[0], tuple(ax))

    @am("tolist")
    def m_tolist(vm_, st, a, kw):
        return tolist(st, a[0])

    def tolist(st, v):
        o = st.get(v)
        h = host(st, o)
        if h is not None:
            def conv(x):
                if isinstance(x, list):
                    return st.new(HList([conv(y) for y in x]))
                return x
            return conv(h.tolist())
        if o.shape == ():
            return item(vm, st, v)
        n = o.shape[0]
        if not isinstance(n, T) and n <= 512:
            return st.new(HList([
                tolist(st, getitem(vm, st, v, i)) if len(o.shape) > 1 else
                item(vm, st, getitem(vm, st, v, i)) for i in range(n)]))
        if len(o.shape) == 1:
            def elem(s, i):
                return item(vm, s, scal(s, o.dtype, aget(s, o, (i,))))
        elif len(o.shape) == 2 and not isinstance(o.shape[1], T):
            def elem(s, i):
                return ListT(
                    item(vm, s, scal(s, o.dtype, aget(s, o, (i, j))))
                    for j in range(o.shape[1]))
        else:
            raise Unmodelled("tolist of a large array")
        return template_list(st, n, elem)

    def template_list(st, n, elem):
        """list of unknown length of which the i-th element is elem(s, i)"""
        from .containers import abs_add
        from .state import all_cases
        hk = vm.hooks.get("rows")
        acc = [None]

        def one(s):
            s.facts = s.facts.copy()
            if isinstance(n, T):
                s.facts.assume(terms.t_le0(terms.sub(1, n)))
            i = s.sym("row", 0, INF)
            s.facts.assume(terms.t_le0(terms.sub(terms.add(i, 1), n)))
            return elem(s, i)
        mode, vm.summarise = vm.summarise, False
        try:
            rows = all_cases(vm, st, one)
        finally:
            vm.summarise = mode
        for s, v in rows:
            if v is None:
                raise Unmodelled("elements of a list of unknown length")
            s.script, s.cursor = (), 0
            if hk:
                hk(vm, s, v)
            acc[0] = abs_add(vm, s, acc[0], v, n)
        if acc[0] is None:
            return st.new(HList([]))
        return st.new(HList(None, acc[0]))

    @am("item")
    def m_item(vm_, st, a, kw):
        if len(a) > 1:
            return item(vm, st, getitem(vm, st, a[0], tuple(a[1:])))
        return item(vm, st, a[0])

    @am("nonzero")
    def m_nz(vm_, st, a, kw):
        return nonzero(st, a[0])

    @am("fill")
    def m_fill(vm_, st, a, kw):
        assign_all(st, a[0], a[1])

    @am("dot")
    def m_dot(vm_, st, a, kw):
        raise Unmodelled("dot")

    @am("tobytes")
    def m_tb(vm_, st, a, kw):
        o = st.get(a[0])
        h = host(st, o)
        if h is not None:
            return h.tobytes()
        return A("bytes", terms.mk("tobytes", (content_of(st, o),) +
                                   tuple(o.shape), "str"))

    def red_method(name):
        def f(vm_, st, a, kw):
            ax = kw.get("axis", a[1] if len(a) > 1 else None)
            return reduce_(vm, st, name, a[0], kw, ax)
        AM[name] = NF(name, f)
        return f
    REDS = ("sum", "min", "max", "mean", "all", "any", "argmax", "argmin",
            "std", "prod", "var")
    for n in REDS:
        red_method(n)

    @am("clip")
    def m_clip(vm_, st, a, kw):
        lo = a[1] if len(a) > 1 else kw.get("min", kw.get("a_min"))
        hi = a[2] if len(a) > 2 else kw.get("max", kw.get("a_max"))
        return np_clip(st, a[0], lo, hi)

    @am("round")
    def m_round(vm_, st, a, kw):
        o = st.get(a[0])
        return ufunc1(st, "rint", a[0], o.dtype)

    @am("sort")
    def m_sort(vm_, st, a, kw):
        o = st.get(a[0])
        h = host(st, o)
        if h is None:
            raise Unmodelled("sorting an abstract array")
        assign_all(st, a[0], host_array(st, np.sort(h)))

    def np_clip(st, v, lo, hi):
        x = operand(st, v)
        if x is None:
            raise vm.exc(st, "TypeError", "clip")
        ops = [x[:3]]
        vals = [lo, hi]
        cs = []
        for w in vals:
            if w is None:
                continue
            y = operand(st, w)
            if y is None or y[0]:
                raise Unmodelled("clip bounds")
            ops.append(y[:3])
        dt = result_type(st, ops)
        if not x[0]:
            m = wrap(vm, st, dt, x[2])
            if lo is not None:
                m = minmax(st, "max", m, wrap(vm, st, dt, operand(
                    st, lo)[2]))
            if hi is not None:
                m = minmax(st, "min", m, wrap(vm, st, dt, operand(
                    st, hi)[2]))
            return scal(st, dt, m)
        c = content_of(st, x[4])
        if x[1] != dt:
            c = CMap("astype", (c,), dt, (x[1],))
        if lo is not None:
            c = CMap("max", (c, CConst(wrap(vm, st, dt, operand(
                st, lo)[2]))), dt, (dt, dt))
        if hi is not None:
            c = CMap("min", (c, CConst(wrap(vm, st, dt, operand(
                st, hi)[2]))), dt, (dt, dt))
        return new_array(st, c, x[3], dt)

    # ---------------------------------------------------------------- module
    def module(vm_, st):
        M = {}

        def f(name, fn):
            def g(vm_, st, a, kw):
                out = kw.get("out")
                if out is None:
                    return fn(vm_, st, a, kw)
                kw = {k: v for k, v in kw.items() if k != "out"}
                if not is_arr(st, out):
                    raise Unmodelled("out= of np." + name)
                r = asarray(st, fn(vm_, st, a, kw))
                rdt, o = st.get(r).dtype, st.get(out)
                if not can_cast_same_kind(rdt, o.dtype):
                    raise vm.exc(st, "TypeError", "Cannot cast ufunc output "
                                 "from %s to %s" % (rdt, o.dtype))
                assign_all(st, out, r)
                return out
            M[name] = NF("np." + name, g, bind=False)

        def d(name):
            def dd(fn):
                f(name, fn)
                return fn
            return dd
        for t in NPTYPES:
            M[t] = cl[t]
        M["bool8"] = cl["bool_"]
        for al, t in (("int", "int"), ("float", "float"), ("bool", "bool"),
                      ("object", "object"), ("str", "str")):
            M[al] = cl[t]
        for al in ("int_", "intp", "uintp", "float_", "double", "single",
                   "ubyte", "byte", "ushort", "short", "intc", "uintc",
                   "longlong", "ulonglong"):
            M[al] = cl[ALIASES[al]]
        M["ndarray"] = cl["ndarray"]
        M["dtype"] = cl["dtype"]
        M["generic"] = cl["generic_np"]
        M["integer"] = cl["generic_np"]
        M["pi"] = float(np.pi)
        M["inf"] = INF
        M["nan"] = float("nan")
        M["newaxis"] = None

        def arg(a, kw, i, name, default=None):
            return a[i] if len(a) > i else kw.get(name, default)

        def filled(name, val):
            def g(vm_, st, a, kw):
                sh = read_shape(st, arg(a, kw, 0, "shape"))
                dt = dtype_of(st, arg(a, kw, 1, "dtype"))
                return new_array(st, CConst(host_m(val, dt)), sh, dt)
            f(name, g)
        filled("zeros", 0)
        filled("ones", 1)

        @d("empty")
        def _empty(vm_, st, a, kw):
            return uninit(st, read_shape(st, arg(a, kw, 0, "shape")),
                          dtype_of(st, arg(a, kw, 1, "dtype")))

        @d("full")
        def _full(vm_, st, a, kw):
            sh = read_shape(st, arg(a, kw, 0, "shape"))
            v = num_of(vm, st, arg(a, kw, 1, "fill_value"))
            if v is None:
                raise Unmodelled("np.full")
            dt = dtype_of(st, arg(a, kw, 2, "dtype"), full(v[0]))
            return new_array(st, CConst(wrap(vm, st, dt, v[1])), sh, dt)

        def like(name, val):
            def g(vm_, st, a, kw):
                o = st.get(asarray(st, a[0]))
                dt = dtype_of(st, arg(a, kw, 1, "dtype"), o.dtype)
                if val is None:
                    return uninit(st, o.shape, dt)
                return new_array(st, CConst(host_m(val, dt)), o.shape, dt)
            f(name, g)
        like("zeros_like", 0)
        like("ones_like", 1)
        like("empty_like", None)

        @d("full_like")
        def _fl(vm_, st, a, kw):
            o = st.get(asarray(st, a[0]))
            v = num_of(vm, st, arg(a, kw, 1, "fill_value"))
            dt = dtype_of(st, arg(a, kw, 2, "dtype"), o.dtype)
            return new_array(st, CConst(wrap(vm, st, dt, v[1])), o.shape, dt)

        @d("arange")
        def _arange(vm_, st, a, kw):
            ns = [num_of(vm, st, x) for x in a]
            if any(n is None for n in ns):
                raise vm.exc(st, "TypeError", "arange")
            ms = [n[1] for n in ns]
            dt = kw.get("dtype")
            if any(is_float(n[0]) for n in ns):
                if any(isinstance(m, T) for m in ms):
                    raise Unmodelled("float arange")
                if all(float(m).is_integer() for m in ms):
                    dt = dt or "float64"
                    ms = [int(m) for m in ms]
                else:
                    return host_array(st, np.arange(*ms))
            dt = dtype_of(st, dt, "int64")
            if len(ms) == 1:
                lo, hi, step = 0, ms[0], 1
            else:
                lo, hi = ms[:2]
                step = ms[2] if len(ms) > 2 else 1
            if all(not isinstance(x, T) for x in (lo, hi, step)):
                n = len(range(int(lo), int(hi), int(step)))
                if n <= 2 ** 17:
                    return host_array(st, np.arange(
                        int(lo), int(hi), int(step)).astype(npd(dt)))
                return new_array(st, CRange(int(lo), int(step)), (n,), dt)
            if step != 1:
                raise Unmodelled("symbolic arange step")
            return new_array(st, CRange(lo, 1), (terms.sub(hi, lo),), dt)

        @d("array")
        def _array(vm_, st, a, kw):
            dt = arg(a, kw, 1, "dtype")
            dt = dtype_of(st, dt) if dt is not None else None
            v = a[0]
            if isinstance(v, Ref) and not is_arr(st, v) and not isinstance(
                    st.get(v), HList):
                raise Unmodelled("np.array of %s" % vm.describe(st, v))
            r = asarray(st, v, dt)
            if is_arr(st, v):
                return copy(st, r)
            return r

        def _asarray(vm_, st, a, kw):
            dt = arg(a, kw, 1, "dtype")
            dt = dtype_of(st, dt) if dt is not None else None
            return asarray(st, a[0], dt)
        f("asarray", _asarray)
        f("ascontiguousarray", _asarray)
        f("asanyarray", _asarray)

        @d("copy")
        def _cp(vm_, st, a, kw):
            return copy(st, asarray(st, a[0]))

        @d("roll")
        def _roll(vm_, st, a, kw):
            v = asarray(st, a[0])
            o = st.get(v)
            sh = num_of(vm, st, arg(a, kw, 1, "shift"))[1]
            ax = arg(a, kw, 2, "axis")
            h = host(st, o)
            if h is not None and not isinstance(sh, T):
                return host_array(st, np.roll(h, sh, axis=ax))
            if ax is None:
                if len(o.shape) != 1:
                    flat = reshape(st, v, (size_of(vm, st, o.shape),))
                    fo = st.get(flat)
                    r = new_array(st, CRoll(content_of(st, fo), fo.shape, sh,
                                            0), fo.shape, o.dtype)
                    return reshape(st, r, o.shape)
                ax = 0
            return new_array(st, CRoll(content_of(st, o), o.shape, sh,
                                       ax % len(o.shape)), o.shape, o.dtype)

        @d("stack")
        def _stack(vm_, st, a, kw):
            return stack(st, a[0], arg(a, kw, 1, "axis", 0))

        def stack(st, v, axis):
            items = vm.concrete_items(st, v)
            if items is None:
                raise Unmodelled("np.stack")
            r = asarray(st, tuple(asarray(st, i) for i in items))
            o = st.get(r)
            n = len(o.shape)
            axis %= n
            if axis:
                ax = list(range(1, n))
                ax.insert(axis, 0)
                return copy(st, transpose(st, r, tuple(ax)))
            return r

        @d("column_stack")
        def _cs(vm_, st, a, kw):
            return stack(st, a[0], 1)

        @d("concatenate")
        def _cat(vm_, st, a, kw):
            return concat(st, a[0], arg(a, kw, 1, "axis", 0))

        def concat(st, v, axis):
            items = [asarray(st, i) for i in vm.concrete_items(st, v)]
            os = [st.get(i) for i in items]
            dt = os[0].dtype
            for o in os[1:]:
                dt = promote(dt, o.dtype)
            hs = [host(st, o) for o in os]
            if all(h is not None for h in hs):
                return host_array(st, np.concatenate(
                    [h.astype(npd(dt)) for h in hs], axis=axis))
            lens = tuple(o.shape[axis] for o in os)
            tot = 0
            for n in lens:
                tot = terms.add(tot, n)
            cs = tuple(content_of(st, o) if o.dtype == dt else CMap(
                "astype", (content_of(st, o),), dt, (o.dtype,)) for o in os)
            sh = list(os[0].shape)
            sh[axis] = tot
            return new_array(st, CConcat(cs, lens, axis), tuple(sh), dt)

        @d("hstack")
        def _hs(vm_, st, a, kw):
            return concat(st, a[0], 0 if len(st.get(asarray(
                st, vm.concrete_items(st, a[0])[0])).shape) == 1 else 1)

        @d("vstack")
        def _vs(vm_, st, a, kw):
            items = [asarray(st, i) for i in vm.concrete_items(st, a[0])]
            return concat(st, tuple(
                reshape(st, i, (1,) + tuple(st.get(i).shape))
                if len(st.get(i).shape) == 1 else i for i in items), 0)

        @d("reshape")
        def _rs(vm_, st, a, kw):
            return reshape(st, asarray(st, a[0]), shape_args(st, a[1:2], kw),
                           kw.get("order", "C"))

        @d("transpose")
        def _tr(vm_, st, a, kw):
            v = a[0]
            if isinstance(v, tuple):
                v = stack(st, v, 0)
            ax = arg(a, kw, 1, "axes")
            return transpose(st, asarray(st, v), ax)

        @d("ravel")
        def _rv(vm_, st, a, kw):
            return m_ravel(vm, st, (asarray(st, a[0]),), {})

        @d("squeeze")
        def _sq(vm_, st, a, kw):
            return m_squeeze(vm, st, a, {})

        @d("expand_dims")
        def _ed(vm_, st, a, kw):
            o = st.get(asarray(st, a[0]))
            ax = arg(a, kw, 1, "axis") % (len(o.shape) + 1)
            sh = o.shape[:ax] + (1,) + o.shape[ax:]
            return reshape(st, asarray(st, a[0]), sh)

        @d("nonzero")
        def _nz(vm_, st, a, kw):
            return nonzero(st, asarray(st, a[0]))

        @d("flatnonzero")
        def _fnz(vm_, st, a, kw):
            v = asarray(st, a[0])
            return nonzero(st, reshape(st, v, (size_of(
                vm, st, st.get(v).shape),)))[0]

        @d("argwhere")
        def _aw(vm_, st, a, kw):
            return transpose(st, stack(st, nonzero(st, asarray(st, a[0])),
                                       0), None)

        @d("where")
        def _where(vm_, st, a, kw):
            if len(a) == 1:
                return nonzero(st, asarray(st, a[0]))
            return nary(st, "where", a)

        def nary(st, name, a):
            ops = [operand(st, x) for x in a]
            dt = result_type(st, [o[:3] for o in (
                ops[1:] if name == "where" else ops)])
            if not any(o[0] for o in ops):
                return scal(st, dt, apply_op(vm, st, name, [
                    o[2] for o in ops], tuple(full(o[1]) for o in ops), dt))
            sh = bshape(st, [o[3] for o in ops])
            hs = [host(st, o[4]) if o[0] else (
                None if isinstance(o[2], T) else o[2]) for o in ops]
            if all(h is not None for h in hs) and name == "where":
                return host_array(st, np.where(*hs).astype(npd(dt)))
            return new_array(st, CMap(name, tuple(bc(st, o, sh)
                                                  for o in ops), dt,
                                      tuple(full(o[1]) for o in ops)), sh,
                             dt)

        for nm, op in (("add", "+"), ("subtract", "-"), ("multiply", "*"),
                       ("divide", "/"), ("true_divide", "/"),
                       ("floor_divide", "//"), ("mod", "%"),
                       ("remainder", "%"), ("bitwise_and", "&"),
                       ("bitwise_or", "|"), ("bitwise_xor", "^"),
                       ("left_shift", "<<"), ("right_shift", ">>"),
                       ("power", "**"), ("less", "<"), ("greater", ">"),
                       ("equal", "=="), ("not_equal", "!="),
                       ("less_equal", "<="), ("greater_equal", ">=")):
            def mk(op):
                def g(vm_, st, a, kw):
                    r = vm.binop(st, op, as_np(st, a[0]), as_np(st, a[1])) \
                        if op not in CMP else binop2(st, op, a[0], a[1])
                    out = kw.get("out", a[2] if len(a) > 2 else None)
                    if out is not None:
                        if isinstance(out, tuple):
                            out = out[0]
                        assign_all(st, out, r)
                        return out
                    return r
                return g
            f(nm, mk(op))

        def as_np(st, v):
            n = num_of(vm, st, v)
            if n is not None:
                return v if n[0] in NPTYPES else A(full(n[0]), n[1])
            return v

        def binop2(st, op, a, b):
            if is_arr(st, a) or is_arr(st, b):
                return binop(vm, st, op, a, b)
            x, y = num_of(vm, st, a), num_of(vm, st, b)
            return scalar_binop(vm, st, op, x[0], x[1], y[0], y[1])

        for nm, op in (("logical_and", "land"), ("logical_or", "lor")):
            def mk2(op):
                def g(vm_, st, a, kw):
                    ops = [operand(st, x) for x in a[:2]]
                    if not ops[0][0] and not ops[1][0]:
                        return A("bool_", apply_op(vm, st, op, [
                            o[2] for o in ops], None, "bool_"))
                    sh = bshape(st, [o[3] for o in ops])
                    return new_array(st, CMap(op, tuple(
                        bc(st, o, sh) for o in ops), "bool_", tuple(
                            full(o[1]) for o in ops)), sh, "bool_")
                return g
            f(nm, mk2(op))

        @d("logical_not")
        def _ln(vm_, st, a, kw):
            return ufunc1(st, "not", asarray(st, a[0]), "bool_")

        for nm, op in (("minimum", "min"), ("maximum", "max"),
                       ("fmin", "min"), ("fmax", "max")):
            def mk3(op):
                def g(vm_, st, a, kw):
                    return nary(st, op, a[:2])
                return g
            f(nm, mk3(op))

        def u1(name, op, rdt=None):
            def g(vm_, st, a, kw):
                v = a[0]
                x = operand(st, v)
                if x is None:
                    raise vm.exc(st, "TypeError", "np.%s" % name)
                dt = full(x[1])
                r = rdt or dt
                if rdt is None and op in ("sqrt", "sin", "cos", "exp", "log",
                                          "floor", "ceil", "rint") and \
                        kind(dt) < 2:
                    r = "float64"
                if not x[0]:
                    return scal(st, r, apply_op(vm, st, op, [x[2]], (dt,),
                                                r))
                return ufunc1(st, op, asarray(st, v), r)
            f(name, g)
        for n, o in (("abs", "abs"), ("absolute", "abs"), ("fabs", "abs"),
                     ("negative", "neg"), ("invert", "inv"),
                     ("bitwise_not", "inv"), ("floor", "floor"),
                     ("ceil", "ceil"), ("rint", "rint"), ("round", "rint"),
                     ("around", "rint"), ("round_", "rint"),
                     ("trunc", "trunc"), ("fix", "trunc"), ("sqrt", "sqrt"),
                     ("sin", "sin"), ("cos", "cos"), ("exp", "exp"),
                     ("log", "log"), ("sign", "sign")):
            u1(n, o)
        for n in ("isnan", "isfinite", "isinf"):
            u1(n, n, "bool_")

        @d("nan_to_num")
        def _n2n(vm_, st, a, kw):
            x = operand(st, a[0])
            if not x[0]:
                if not isinstance(x[2], T):
                    return scal(st, full(x[1]), float(np.nan_to_num(x[2])))
                return scal(st, full(x[1]), terms.mk("nan2num", (x[2],),
                                                     "float"))
            raise Unmodelled("nan_to_num")

        @d("clip")
        def _clip(vm_, st, a, kw):
            r = np_clip(st, a[0], arg(a, kw, 1, "a_min", kw.get("min")),
                        arg(a, kw, 2, "a_max", kw.get("max")))
            out = kw.get("out", a[3] if len(a) > 3 else None)
            if out is not None:
                assign_all(st, out, r)
                return out
            return r

        for n in REDS + ("count_nonzero", "amin", "amax", "median"):
            def mk4(n):
                def g(vm_, st, a, kw):
                    return reduce_(vm, st, n, a[0], kw,
                                   arg(a, kw, 1, "axis"))
                return g
            f(n, mk4(n))
        M["alltrue"] = M["all"]

        @d("array_equal")
        def _ae(vm_, st, a, kw):
            x, y = asarray(st, a[0]), asarray(st, a[1])
            ox, oy = st.get(x), st.get(y)
            if len(ox.shape) != len(oy.shape):
                return False
            for p, q in zip(ox.shape, oy.shape):
                if not same(p, q):
                    if isinstance(p, T) or isinstance(q, T):
                        e = vm.cmp_num(st, "==", p, q)
                        if st.decide(e) if isinstance(e, T) else e:
                            continue
                    return False
            return item(vm, st, reduce_(vm, st, "all", binop(
                vm, st, "==", x, y), {}))

        @d("frombuffer")
        def _fb(vm_, st, a, kw):
            dt = dtype_of(st, arg(a, kw, 1, "dtype"))
            v = a[0]
            xs = vm.concrete_items(st, v) if isinstance(v, Ref) else None
            if xs is not None and all(isinstance(x, int) for x in xs):
                v = bytes(xs)
            if isinstance(v, bytes):
                try:
                    return host_array(st, np.frombuffer(v, npd(dt)))
                except ValueError as e:
                    raise vm.exc(st, "ValueError", str(e))
            n = vm.length(st, v)
            n = n.m if isinstance(n, A) else n
            k = npd(dt).itemsize
            r = i_mod(vm, st, n, k)
            z = vm.cmp_num(st, "==", r, 0)
            if not (st.decide(z) if isinstance(z, T) else z):
                raise vm.exc(st, "ValueError", "buffer size must be a "
                             "multiple of element size")
            ln = simp(st, i_fdiv(vm, st, n, k))
            return fresh_array(st, "buf", (ln,), dt)

        @d("fromfile")
        def _ff(vm_, st, a, kw):
            h = vm.hooks.get("fromfile")
            if h:
                return h(vm, st, a, kw)
            m = st.get(st.roots["modules"]).d.get("__fs__")
            if m is not None and "fromfile" in st.get(m[1]).attrs:
                return TailCall(st.get(m[1]).attrs["fromfile"], a, kw)
            dt = dtype_of(st, arg(a, kw, 1, "dtype"))
            n = st.sym("filelen", 0)
            return fresh_array(st, "file", (n,), dt)

        @d("load")
        def _load(vm_, st, a, kw):
            h = vm.hooks.get("npload")
            if h:
                return h(vm, st, a, kw)
            raise Unmodelled("np.load")

        def _save(vm_, st, a, kw):
            h = vm.hooks.get("npsave")
            if h:
                return h(vm, st, a, kw)
            return None
        f("savez_compressed", _save)
        f("savez", _save)
        f("save", _save)

        def pct(k):
            def _pc(vm_, st, a, kw):
                x = st.get(asarray(st, a[0]))
                q = a[1] if len(a) > 1 else kw["q"]
                if len(a) > 2 or set(kw) - {"q"}:
                    raise Unmodelled("percentile options")
                dt = "float64"
                h = host(st, x)

                def one(m):
                    if h is not None and not isinstance(m, T):
                        return float(np.percentile(h, m * k))
                    return terms.mk("percentile", (
                        content_of(st, x), tuple(x.shape),
                        terms.f_mul(m, float(k))), "float")
                n = num_of(vm, st, q)
                if n is not None:
                    return scal(st, dt, one(n[1]))
                qs = vm.concrete_items(st, q)
                cs = [CConst(one(num_of(vm, st, i)[1])) for i in qs]
                return new_array(st, CStack(tuple(cs), 0), (len(cs),), dt)
            return _pc
        f("percentile", pct(1))
        f("quantile", pct(100))

        @d("linspace")
        def _ls(vm_, st, a, kw):
            if all(isinstance(x, (int, float)) for x in a):
                return host_array(st, np.linspace(*a))
            raise Unmodelled("linspace")

        @d("indices")
        def _ind(vm_, st, a, kw):
            return host_array(st, np.indices(read_shape(st, a[0])))

        @d("meshgrid")
        def _mg(vm_, st, a, kw):
            hs = [host(st, st.get(asarray(st, x))) for x in a]
            if any(h is None for h in hs):
                raise Unmodelled("meshgrid")
            return st.new(HList([host_array(st, h) for h in np.meshgrid(
                *hs, indexing=kw.get("indexing", "xy"))]))

        @d("repeat")
        def _rep(vm_, st, a, kw):
            h = host(st, st.get(asarray(st, a[0])))
            if h is None:
                raise Unmodelled("np.repeat")
            return host_array(st, np.repeat(h, a[1], axis=arg(
                a, kw, 2, "axis")))

        @d("tile")
        def _tile(vm_, st, a, kw):
            h = host(st, st.get(asarray(st, a[0])))
            if h is None:
                raise Unmodelled("np.tile")
            return host_array(st, np.tile(h, a[1]))

        @d("sort")
        def _sort(vm_, st, a, kw):
            h = host(st, st.get(asarray(st, a[0])))
            if h is None:
                raise Unmodelled("np.sort")
            return host_array(st, np.sort(h))

        @d("unique")
        def _uniq(vm_, st, a, kw):
            h = host(st, st.get(asarray(st, a[0])))
            if h is None:
                raise Unmodelled("np.unique")
            return host_array(st, np.unique(h))

        # functions of constant arrays
        def on_hosts(name):
            def g(vm_, st, a, kw):
                def h(v):
                    if is_arr(st, v) or isinstance(v, Ref):
                        x = host(st, st.get(asarray(st, v)))
                        if x is None:
                            raise Unmodelled("np." + name)
                        return x
                    if isinstance(v, tuple):
                        return tuple(h(x) for x in v)
                    if isinstance(v, A):
                        if isinstance(v.m, T):
                            raise Unmodelled("np." + name)
                        return v.m
                    return v

                def back(r):
                    if isinstance(r, np.ndarray):
                        return host_array(st, r)
                    if isinstance(r, tuple):
                        return tuple(back(x) for x in r)
                    if isinstance(r, np.generic):
                        return scal(st, dname(r.dtype), host_m(
                            r, dname(r.dtype)))
                    return r
                return back(getattr(np, name)(
                    *[h(x) for x in a], **{k: h(x) for k, x in kw.items()}))
            f(name, g)
        for n in ("argsort", "lexsort", "take", "cumsum", "diff",
                  "unpackbits", "packbits", "searchsorted", "bincount",
                  "isin", "setdiff1d", "intersect1d", "rot90", "tril",
                  "triu", "kron", "outer", "gcd", "ix_"):
            if n not in M:
                on_hosts(n)

        @d("copyto")
        def _copyto(vm_, st, a, kw):
            if "where" in kw or len(a) != 2:
                raise Unmodelled("np.copyto where")
            assign_all(st, a[0], a[1])
            return None

        @d("broadcast_to")
        def _bt(vm_, st, a, kw):
            v = asarray(st, a[0])
            sh = read_shape(st, a[1])
            return new_array(st, bc(st, operand(st, v), sh), sh,
                             st.get(v).dtype)

        @d("broadcast_arrays")
        def _ba(vm_, st, a, kw):
            ops = [operand(st, x) for x in a]
            sh = bshape(st, [o[3] for o in ops])
            return st.new(HList([new_array(st, bc(st, o, sh), sh, full(o[1]))
                                 for o in ops]))

        @d("iinfo")
        def _ii(vm_, st, a, kw):
            dt = dtype_of(st, a[0])
            lo, hi = INFO[dt]
            return st.new(HInst(cl["object"], {"min": lo, "max": hi,
                                               "bits": npd(dt).itemsize * 8}))

        @d("isscalar")
        def _isc(vm_, st, a, kw):
            return num_of(vm, st, a[0]) is not None

        @d("seterr")
        def _se(vm_, st, a, kw):
            return st.new(HDict())

        @d("errstate")
        def _es(vm_, st, a, kw):
            return st.new(HInst(cl["_ctx"], {}))

        @d("ndindex")
        def _ndi(vm_, st, a, kw):
            sh = read_shape(st, a[0] if len(a) == 1 else tuple(a))
            return tuple(tuple(i) for i in np.ndindex(*sh))

        @d("result_type")
        def _rt(vm_, st, a, kw):
            return dtype_obj(st, result_type(st, [(True, dtype_of(st, x),
                                                   None) for x in a]))

        @d("rot90")
        def _r90(vm_, st, a, kw):
            raise Unmodelled("rot90")

        @d("bincount")
        def _binc(vm_, st, a, kw):
            h = host(st, st.get(asarray(st, a[0])))
            if h is None:
                raise Unmodelled("bincount")
            return host_array(st, np.bincount(h))

        # np.random
        R = {}

        def rand(vm_, st, a, kw):
            lo = num_of(vm, st, arg(a, kw, 0, "low"))[1]
            hi = arg(a, kw, 1, "high")
            size = arg(a, kw, 2, "size")
            if hi is None:
                lo, hi = 0, lo
            else:
                hi = num_of(vm, st, hi)[1]
            if isinstance(lo, T) or isinstance(hi, T):
                raise Unmodelled("random bounds")
            if size is None:
                return mkA("int", st.sym("rnd", int(lo), int(hi) - 1))
            return fresh_array(st, "rnd", read_shape(st, size), "int64",
                               int(lo), int(hi) - 1)
        R["randint"] = NF("randint", rand, bind=False)
        R["seed"] = NF("seed", lambda vm, s, a, k: None, bind=False)

        def rnd(vm_, st, a, kw):
            if a:
                return fresh_array(st, "rnd", read_shape(st, a[0] if len(
                    a) == 1 else tuple(a)), "float64", 0.0, 1.0)
            t = terms.sym("rnd", "float")
            st.facts.iv[t] = (0.0, 1.0, 1, 0)
            return A("float", t)
        R["random"] = NF("random", rnd, bind=False)
        R["rand"] = R["random"]

        def rng(vm_, st, a, kw):
            return st.new(HInst(cl["object"], {
                "integers": R["randint"], "random": R["random"]}))
        R["default_rng"] = NF("default_rng", rng, bind=False)
        M["random"] = st.new(HModule("numpy.random", R))
        M["__name__"] = "numpy"
        M["typing"] = st.new(HModule("numpy.typing", {
            "NDArray": cl["ndarray"], "ArrayLike": cl["object"]}))
        return M
    vm.natmods["numpy"] = module
    vm.natmods["numpy.random"] = lambda vm_, st: st.get(st.get(
        vm.import_module(st, "numpy")).attrs["random"]).attrs
    P.ceval = lambda st, c, idx: ceval(vm, st, c, idx)
    P.content_of = content_of
