"""Operators, comparisons, subscripts, iteration and container methods."""

from . import terms
from .terms import T, Infeasible
from .state import (A, Ref, NF, BM, Choice, ARange, Table, HList, HDict, HSet,
                    HInst, HClass, HModule, HFunc, HCell, HGen, HIter, HBox,
                    HStore, HArr, Frame, State, PyRaise)
from .interp import NULL, TailCall, PUSHED, Unmodelled, mkA, SuperV
from .builtins_ import (num_of, mkbool, b2i, int_op, float_op, is_float,
                        NPTYPES, isstr, str_parts, str_mk, strcat, percent,
                        dot_format, to_str, symbolic_key, enum_members,
                        const_str, _freeze)

INF = terms.INF


class ListT(tuple):
    """a list that is an element of an abstract list"""


class U:
    """a number of one of several types, in an element template"""
    __slots__ = ("tys", "m")

    def __init__(self, tys, m):
        self.tys, self.m = tys, m

    def __eq__(self, o):
        return isinstance(o, U) and self.tys == o.tys and self.m == o.m

    def __hash__(self):
        return hash((self.tys, self.m))


class AbsList:
    """Any number of elements, each an instance of a template: symbols bound
    with ranges; predicates that components satisfy (name in vm.elem_preds,
    number of the component); and terms that components differ from."""
    def __init__(self, elem, facts, n, preds=frozenset(), ne=frozenset()):
        self.elem, self.facts, self.n = elem, facts, n
        self.preds, self.ne = preds, ne

    def with_n(self, n):
        return AbsList(self.elem, self.facts, n, self.preds, self.ne)

    def fresh(self, st, vm=None):
        m = {}
        for s, f in self.facts:
            v = st.sym("el", sort=s.sort)
            st.facts.iv[v] = f
            m[s] = v
        v = thaw(st, subst_val(self.elem, m))
        if self.preds or self.ne:
            c = components(st, v)
            for p, k in sorted(self.preds):
                vm.elem_preds[p].assume(vm, st, c[k])
            for k, t in self.ne:
                st.facts.assume(terms.t_eq0(terms.sub(c[k], t)), False)
        return v

    def truth(self, vm, st):
        return not st.decide(terms.t_le0(self.n))

    def length(self, vm, st):
        return mkA("int", self.n)

    def _key(self):
        return self.elem, self.facts, self.n, self.preds, self.ne

    def __eq__(self, o):
        return isinstance(o, AbsList) and self._key() == o._key()

    def __hash__(self):
        return hash(self._key())

    # ---- loop heads
    def _terms(self):
        out = []
        walk_terms(self.elem, out)
        return out

    def term_syms(self):
        b = set(s for s, _ in self.facts)
        r = set()
        for t in self._terms():
            r |= t.syms - b
        for _, t in self.ne:
            if isinstance(t, T):
                r |= t.syms
        return r

    def term_names(self):
        from .join import fnames
        r = set()
        for t in self._terms():
            r |= fnames(t)
        return r

    def join(self, vm, o, Fw, Fs, widen):
        if not isinstance(o, AbsList):
            raise Unmodelled("different abstract lists at a loop head")
        e, f = join_tmpl(self.elem, dict(self.facts), o.elem, dict(o.facts),
                         widen)
        return AbsList(e, f, self.n, self.preds & o.preds,
                       self.ne & o.ne)

    def subsumes(self, o, m, facts):
        if not isinstance(o, AbsList) or not self.preds <= o.preds:
            return False
        if not tmpl_within(self.elem, dict(self.facts), o.elem,
                           dict(o.facts)):
            return False
        for k, t in self.ne:
            if isinstance(t, T):
                t = terms.subst(t, m)
            if (k, facts.n(t)) not in o.ne and (k, t) not in o.ne:
                return False
        return True


_BOUND = {}


def bound(i, sort):
    b = _BOUND.get((i, sort))
    if b is None:
        b = _BOUND[i, sort] = terms.sym("elem%d" % i, sort)
    return b


def walk_terms(v, out):
    if isinstance(v, T):
        out.append(v)
    elif isinstance(v, (A, U)):
        walk_terms(v.m, out)
    elif isinstance(v, tuple):
        for x in v:
            walk_terms(x, out)


def template(st, v):
    """value as (template, bounds)"""
    pos = [0]
    f = []

    def go(v):
        if isinstance(v, Ref) and isinstance(st.get(v), HList) and \
                st.get(v).abs is None:
            return ListT(go(x) for x in st.get(v).items)
        if isinstance(v, tuple):
            return type(v)(go(x) for x in v)
        pos[0] += 1
        if isinstance(v, A) and isinstance(v.m, T) and v.m.sort in (
                "int", "float"):
            c = st.facts.const(v.m) if v.m.sort == "int" else None
            if c is not None:
                return mkA(v.ty, c)
            b = bound(pos[0], v.m.sort)
            lo, hi = st.facts.rng(v.m)
            mm, r = st.facts.cong(v.m) if v.m.sort == "int" else (1, 0)
            f.append((b, (lo, hi, mm or 1, r if mm else 0)))
            return mkA(v.ty, b)
        if isinstance(v, (int, float, str, bytes, A)) or v is None:
            return v
        raise Unmodelled("%r in a list of unknown length" % (v,))
    e = go(v)
    return e, tuple(f)


def thaw(st, v):
    if isinstance(v, ListT):
        return st.new(HList([thaw(st, x) for x in v]))
    if isinstance(v, tuple):
        return tuple(thaw(st, x) for x in v)
    if isinstance(v, U):
        return mkA(st.choose(sorted(v.tys)), v.m)
    return v


def _num(v):
    """(type, value, bounds) of a numeric template leaf"""
    if isinstance(v, A) and (isinstance(v.m, (int, float)) or
                             isinstance(v.m, T)):
        return frozenset([v.ty]), v.m
    if isinstance(v, U):
        return v.tys, v.m
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return frozenset(["int"]), v
    if isinstance(v, float):
        return frozenset(["float"]), v
    return None


def _mkU(tys, m):
    return mkA(min(tys), m) if len(tys) == 1 else U(tys, m)


def _sort(x):
    if isinstance(x[1], T):
        return x[1].sort
    return "float" if isinstance(x[1], float) else "int"


def _rng(m, f):
    if isinstance(m, T):
        return f.get(m)
    return (m, m, 0, m)


def join_tmpl(a, fa, b, fb, widen):
    from math import gcd
    from .join import up, down
    pos = [0]
    f = []

    def go(a, b):
        if isinstance(a, tuple):
            if type(a) is not type(b) or len(a) != len(b):
                raise Unmodelled("different elements in a list of unknown "
                                 "length")
            return type(a)(go(x, y) for x, y in zip(a, b))
        pos[0] += 1
        x, y = _num(a), _num(b)
        if x is None or y is None or _sort(x) != _sort(y):
            if a == b:
                return a
            raise Unmodelled("different elements in a list of unknown length")
        tys = x[0] | y[0]
        if not isinstance(x[1], T) and x[1] == y[1]:
            return _mkU(tys, x[1])
        ra, rb = _rng(x[1], fa), _rng(y[1], fb)
        if ra is None or rb is None:
            if a == b:
                return a
            raise Unmodelled("different elements in a list of unknown length")
        sort = x[1].sort if isinstance(x[1], T) else \
            y[1].sort if isinstance(y[1], T) else \
            "float" if isinstance(x[1], float) else "int"
        lo, hi = min(ra[0], rb[0]), max(ra[1], rb[1])
        if widen:
            if rb[0] < ra[0]:
                lo = down(rb[0])
            if rb[1] > ra[1]:
                hi = up(rb[1])
        md, r = 1, 0
        if sort == "int":
            md = gcd(gcd(ra[2], rb[2]), abs(ra[3] - rb[3])) or 1
            r = ra[3] % md
        c = bound(pos[0], sort)
        f.append((c, (lo, hi, md, r)))
        return _mkU(tys, c)
    e = go(a, b)
    return e, tuple(f)


def tmpl_within(a, fa, b, fb):
    """is every instance of b one of a?"""
    if isinstance(a, tuple):
        return type(a) is type(b) and len(a) == len(b) and all(
            tmpl_within(x, fa, y, fb) for x, y in zip(a, b))
    if a == b and not (isinstance(a, (A, U)) and a.m in fa):
        return True
    x, y = _num(a), _num(b)
    if x is None or y is None or not y[0] <= x[0]:
        return False
    ra, rb = _rng(x[1], fa), _rng(y[1], fb)
    if ra is None or rb is None:
        return False
    if not (ra[0] <= rb[0] and rb[1] <= ra[1]):
        return False
    if ra[2] > 1:
        if rb[2] == 0:
            return rb[3] % ra[2] == ra[3]
        return rb[2] % ra[2] == 0 and rb[3] % ra[2] == ra[3] % ra[2]
    return isinstance(x[1], T)


def components(st, v):
    """the integers an element is made of"""
    out = []

    def go(x):
        if isinstance(x, Ref):
            o = st.get(x)
            if isinstance(o, HList) and o.abs is None:
                for y in o.items:
                    go(y)
                return
        elif isinstance(x, tuple):
            for y in x:
                go(y)
            return
        elif isinstance(x, A) and x.ty != "float" and (
                isinstance(x.m, int) or
                isinstance(x.m, T) and x.m.sort == "int"):
            out.append(x.m)
            return
        elif isinstance(x, int) and not isinstance(x, bool):
            out.append(x)
            return
        out.append(None)
    go(v)
    return out


def comp_preds(vm, st, v, among=None):
    """predicates that components of v surely satisfy"""
    from .state import all_cases
    out = set()
    c = components(st, v)
    if among is None:
        among = [(p, k) for p in vm.elem_preds for k in range(len(c))]
    for name, k in among:
        if k >= len(c) or c[k] is None:
            continue
        p = vm.elem_preds[name]
        rs = all_cases(vm, st, lambda s: p.check(vm, s, c[k]))
        if all(r is True for _, r in rs):
            out.add((name, k))
    return frozenset(out)


def known_ne(st, a, b):
    d = terms.sub(st.facts.n(a), st.facts.n(b))
    if not isinstance(d, T):
        return d != 0
    return st.facts.known(terms.t_eq0(d)) is False


def comp_ne(vm, st, v, among=None):
    """terms (local variables of the active functions) that components of v
    surely differ from"""
    if not vm.elem_preds:
        return frozenset()
    c = components(st, v)
    if among is None:
        loc = set()
        for f in st.frames:
            for x in f.loc.values():
                if isinstance(x, A) and x.ty != "float" and \
                        isinstance(x.m, T) and x.m.sort == "int":
                    loc.add(st.facts.n(x.m))
        among = [(k, t) for k in range(len(c)) for t in loc]
    return frozenset((k, t) for k, t in among
                     if k < len(c) and c[k] is not None and
                     known_ne(st, c[k], t))


def abs_add(vm, st, a, v, n):
    """abstract list a (or None, if there are no elements) with v added"""
    e, f = template(st, v)
    if a is None:
        return AbsList(e, f, n, comp_preds(vm, st, v), comp_ne(vm, st, v))
    e, f = join_tmpl(a.elem, dict(a.facts), e, dict(f), False)
    return AbsList(e, f, n, comp_preds(vm, st, v, a.preds),
                   comp_ne(vm, st, v, a.ne))


def abstract_list(vm, st, ref):
    """forget which elements a list has, but for their common template"""
    o = st.get(ref)
    if o.abs is not None or not o.items:
        return
    a = None
    for k, v in enumerate(o.items):
        a = abs_add(vm, st, a, v, k + 1)
    m = st.mut(ref)
    m.items, m.abs = None, a


class SegList:
    """sep-separated pieces of a string with unknown parts"""
    def __init__(self, segs, sep, multi):
        self.segs, self.sep, self.multi = segs, sep, multi

    def truth(self, vm, st):
        if self.segs:
            return True
        raise Unmodelled("truth of an abstract split")

    def length(self, vm, st):
        if not any(self.multi):
            return len(self.segs)
        t = terms.mk("nseg", (_freeze([p for s in self.segs for p in s]),
                              self.sep), "int")
        st.facts.iv.setdefault(t, (len(self.segs), INF, 1, 0))
        return mkA("int", t)


def subst_val(v, m):
    if isinstance(v, A):
        return mkA(v.ty, terms.subst(v.m, m))
    if isinstance(v, U):
        return U(v.tys, terms.subst(v.m, m))
    if isinstance(v, tuple):
        return type(v)(subst_val(x, m) for x in v)
    return v


def lacks(vm, part, ch):
    if isinstance(part, str):
        return ch not in part
    if part.op == "sym":
        return ch in vm.lacks.get(part, ())
    if part.op in ("fmt", "str_int"):
        m = part.args[1] if part.op == "fmt" else part.args[0]
        return isinstance(m, T) and m.sort == "int"
    return False


def split_sym(vm, st, v, sep, maxsplit=-1, right=False):
    segs, multi = [[]], [False]
    for p in str_parts(v):
        if isinstance(p, str):
            ps = p.split(sep)
            segs[-1].append(ps[0])
            for x in ps[1:]:
                segs.append([x])
                multi.append(False)
        else:
            segs[-1].append(p)
            if not lacks(vm, p, sep):
                multi[-1] = True
    if maxsplit >= 0 and len(segs) > 1 or (maxsplit >= 0 and any(multi)):
        n = maxsplit
        if right:
            k = len(segs) - n
            if any(multi[max(k, 0):]) or k < 1:
                if k < 1 and not any(multi):
                    pass
                else:
                    return None
            else:
                head = []
                for i, s in enumerate(segs[:k]):
                    head += ([sep] if i else []) + s
                segs = [head] + segs[k:]
                multi = [False] * len(segs)
        else:
            if any(multi[:n]) or len(segs) <= n:
                if len(segs) <= n and not any(multi):
                    pass
                else:
                    return None
            else:
                tail = []
                for i, s in enumerate(segs[n:]):
                    tail += ([sep] if i else []) + s
                segs = segs[:n] + [tail]
                multi = [False] * len(segs)
    if not any(multi):
        return st.new(HList([str_mk(s) for s in segs]))
    return st.new(HList(None, SegList(tuple(tuple(x for x in s if x != "")
                                            for s in segs), sep,
                                      tuple(multi))))


def install(vm):
    vm.lacks = {}
    vm.elem_preds = {}
    vm.array_preds = {}
    vm.residues = True
    vm.eager = False
    vm.atomise = False
    vm.track = None
    vm.abstract_list = lambda st, ref: abstract_list(vm, st, ref)
    vm.unroll = 10 ** 9
    vm.range_unroll = 10 ** 9

    # ------------------------------------------------------------ operators
    RNAMES = {"+": "add", "-": "sub", "*": "mul", "/": "truediv",
              "//": "floordiv", "%": "mod", "&": "and", "|": "or",
              "^": "xor", "<<": "lshift", ">>": "rshift", "**": "pow"}

    def is_arr(st, v):
        return isinstance(v, Ref) and isinstance(st.get(v), HArr)

    def binop(st, name, a, b):
        inplace = name.endswith("=") and len(name) > 1
        op = name[:-1] if inplace else name
        ta, tb = type(a), type(b)
        if (ta is int or ta is float or ta is bool) and (
                tb is int or tb is float or tb is bool):
            return host_op(st, op, a, b)
        if is_arr(st, a) or is_arr(st, b):
            if inplace and is_arr(st, a):
                return vm.np.iop(vm, st, op, a, b)
            return vm.np.binop(vm, st, op, a, b)
        if op == "%" and isstr(a):
            return percent(vm, st, a, b)
        if op == "+" and isstr(a) and isstr(b):
            return strcat(st, (a, b))
        if isinstance(a, Choice):
            return choice_map(st, a, lambda x: binop(st, name, x, b))
        if isinstance(b, Choice):
            return choice_map(st, b, lambda x: binop(st, name, a, x))
        # Python-level operators
        for v, o, pre in ((a, b, "__"), (b, a, "__r")):
            if isinstance(v, Ref) and isinstance(st.get(v), HInst) and \
                    isinstance(st.get(v).cls, Ref):
                if pre == "__" and inplace:
                    f = vm.find(st, st.get(v).cls,
                                "__i%s__" % RNAMES.get(op, op))
                    if f is not NULL:
                        return TailCall(f, (v, o))
                f = vm.find(st, st.get(v).cls,
                            "%s%s__" % (pre, RNAMES.get(op, op)))
                if f is not NULL:
                    return TailCall(f, (v, o))
        na, nb = num_of(vm, st, a), num_of(vm, st, b)
        if na is not None and nb is not None:
            return vm.num_binop(st, op, na, nb)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
            return a + b
        if isinstance(a, bytes) and isinstance(b, bytes) and op == "+":
            return a + b
        if op == "*":
            for x, y in ((a, b), (b, a)):
                n = num_of(vm, st, y)
                if n is None:
                    continue
                k = n[1]
                if isinstance(k, T):
                    k = st.facts.const(k)
                    if k is None and isinstance(x, bytes):
                        return A("bytes", terms.mk("rep", (x, n[1]), "str"))
                    if k is None and isinstance(x, Ref) and isinstance(
                            st.get(x), HList) and st.get(x).abs is None and \
                            len(st.get(x).items) == 1:
                        e = st.get(x).items[0]
                        if isinstance(e, (int, A, float)):
                            kk = n[1] if st.facts.rng(n[1])[0] >= 0 else \
                                terms.mk("max", (0, n[1]), "int")
                            return st.new(HList(None, AbsList(e, (), kk)))
                    if k is None:
                        raise Unmodelled("sequence repetition")
                if isinstance(x, (str, bytes, tuple)):
                    return x * k
                if isinstance(x, Ref) and isinstance(st.get(x), HList):
                    o = st.get(x)
                    if o.abs is None:
                        if k > 200000:
                            raise Unmodelled("huge list")
                        return st.new(HList(list(o.items) * k))
        if isinstance(a, Ref) and isinstance(st.get(a), HList) and op == "+":
            ob = st.get(b) if isinstance(b, Ref) else None
            if inplace and isinstance(ob, HList):
                extend(vm, st, (a, b), {})
                return a
            if inplace:
                if vm.concrete_items(st, b) is None and not (
                        isinstance(b, A) and b.ty == "bytes"):
                    return TailCall(vm.prelude(st, "_iextend"), (a, b))
                extend(vm, st, (a, b), {})
                return a
            if isinstance(ob, HList):
                oa = st.get(a)
                if oa.abs is None and ob.abs is None:
                    return st.new(HList(oa.items + ob.items))
                if isinstance(oa.abs, SegList) and ob.abs is None:
                    return st.new(HList(None, SegList(
                        oa.abs.segs + tuple(tuple(str_parts(x))
                                            for x in ob.items),
                        oa.abs.sep, oa.abs.multi + (False,) * len(
                            ob.items))))
                if isinstance(ob.abs, SegList) and oa.abs is None:
                    return st.new(HList(None, SegList(
                        tuple(tuple(str_parts(x)) for x in oa.items) +
                        ob.abs.segs, ob.abs.sep, (False,) * len(
                            oa.items) + ob.abs.multi)))
                raise Unmodelled("concatenation of abstract lists")
        if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(
                st.get(a), HSet) and isinstance(st.get(b), HSet):
            x, y = st.get(a).d, st.get(b).d
            if op == "|":
                return st.new(HSet(dict(x, **{}) | y))
            if op == "&":
                return st.new(HSet({k: v for k, v in x.items() if k in y}))
            if op == "-":
                return st.new(HSet({k: v for k, v in x.items()
                                    if k not in y}))
        if isinstance(a, Ref) and isinstance(b, Ref) and op == "|" and \
                isinstance(st.get(a), HDict) and isinstance(st.get(b), HDict):
            return st.new(HDict(st.get(a).d | st.get(b).d))
        if isinstance(a, A) and a.ty == "bytes" or isinstance(
                b, A) and b.ty == "bytes":
            return A("bytes", terms.mk("bcat", (_freeze(a), _freeze(b)),
                                       "str"))
        if isinstance(a, Ref) and isinstance(st.get(a), HClass):
            return a  # type unions in annotations
        raise vm.exc(st, "TypeError", "unsupported operand types for %s: "
                     "%s and %s" % (op, vm.describe(st, a),
                                    vm.describe(st, b)))
    vm.binop = binop

    def host_op(st, op, a, b):
        try:
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                return a / b
            if op == "//":
                return a // b
            if op == "%":
                return a % b
            if op == "&":
                return a & b
            if op == "|":
                return a | b
            if op == "^":
                return a ^ b
            if op == "<<":
                return a << b
            if op == ">>":
                return a >> b
            if op == "**":
                return a ** b
        except ZeroDivisionError as e:
            raise vm.exc(st, "ZeroDivisionError", str(e))
        except (ValueError, OverflowError, TypeError) as e:
            raise vm.exc(st, type(e).__name__, str(e))
        raise Unmodelled("operator %s" % op)

    def choice_map(st, c, fn):
        vals = []
        for k, x in c.options:
            r = fn(x)
            if isinstance(r, TailCall):
                raise Unmodelled("Python operator on a choice")
            vals.append((k, r))
        return vm.merge_choice(st, c.key, tuple(vals))

    def num_binop(st, op, na, nb):
        (ta, ma), (tb, mb) = na, nb
        if ta in NPTYPES or tb in NPTYPES:
            return vm.np.scalar_binop(vm, st, op, ta, ma, tb, mb)
        if not isinstance(ma, T) and not isinstance(mb, T):
            return host_op(st, op, ma, mb)
        if ta == tb == "bool" and op in ("&", "|", "^"):
            return mkbool(bool_op(op, ma, mb))
        if is_float(ta) or is_float(tb) or op == "/":
            if op in ("/", "//", "%"):
                mm = st.facts.n(mb)
                z = terms.t_eq0(mm) if not (
                    isinstance(mm, T) and mm.sort == "float") else \
                    terms.t_feq(mm, 0.0)
                if isinstance(mm, T) and mm.sort == "bool":
                    z = terms.t_not(mm)
                if st.decide(z):
                    raise vm.exc(st, "ZeroDivisionError",
                                 "division by zero")
            r = float_op(vm, st, op, ma, mb)
            return mkA("float", r)
        return mkA("int", int_op(vm, st, op, ma, mb))
    vm.num_binop = num_binop

    def bool_op(op, x, y):
        if not isinstance(x, T):
            x, y = y, x
        if not isinstance(y, T):
            if not isinstance(x, T):
                return {"&": x & y, "|": x | y, "^": x ^ y}[op]
            if op == "&":
                return x if y else False
            if op == "|":
                return True if y else x
            return terms.t_not(x) if y else x
        if x is y:
            return x if op in "&|" else False
        return terms.mk({"&": "band", "|": "bor", "^": "bxor"}[op],
                        (x, y) if x.id < y.id else (y, x), "bool")
    vm.bool_op = bool_op

    def unop(st, op, v):
        if is_arr(st, v):
            return vm.np.unary(vm, st, op, v)
        n = num_of(vm, st, v)
        if n is None:
            if isinstance(v, Ref) and isinstance(st.get(v), HInst):
                f = vm.find(st, st.get(v).cls,
                            "__neg__" if op == "-" else "__invert__")
                if f is not NULL:
                    return TailCall(f, (v,))
            raise vm.exc(st, "TypeError", "bad operand type for unary " + op)
        ty, m = n
        if ty in NPTYPES:
            return vm.np.scalar_unop(vm, st, op, ty, m)
        if op == "-":
            if is_float(ty):
                return mkA("float", terms.f_mul(m, -1.0))
            return mkA("int", terms.scale(b2i(m), -1) if isinstance(m, T)
                       else -m)
        if is_float(ty):
            raise vm.exc(st, "TypeError", "bad operand type for unary ~")
        return mkA("int", terms.sub(-1, b2i(m)))
    vm.unop = unop

    # --------------------------------------------------------- comparisons
    def cmp_num(st, op, x, y):
        """x, y mathematical values"""
        x, y = st.facts.n(x), st.facts.n(y)
        if isinstance(x, T) and x.sort == "bool" and not isinstance(y, T) \
                and op in ("==", "!=") and y in (0, 1):
            r = x if bool(y) == (op == "==") else terms.t_not(x)
            return r
        if isinstance(x, T) and x.sort == "bool" and isinstance(y, T) and \
                y.sort == "bool" and op in ("==", "!="):
            if x is y:
                return op == "=="
            r = terms.mk("bxor", (x, y) if x.id < y.id else (y, x), "bool")
            return r if op == "!=" else terms.t_not(r)
        x = b2i(x) if isinstance(x, T) and x.sort == "bool" else x
        y = b2i(y) if isinstance(y, T) and y.sort == "bool" else y
        fl = isinstance(x, float) or isinstance(y, float) or \
            (isinstance(x, T) and x.sort == "float") or \
            (isinstance(y, T) and y.sort == "float")
        if fl and not isinstance(x, T) and isinstance(x, float) and \
                x == int(x) if isinstance(x, float) and abs(x) < 1e300 \
                else False:
            if not (isinstance(y, T) and y.sort == "float"):
                x, fl = int(x), isinstance(y, float)
        if fl and isinstance(y, float) and abs(y) < 1e300 and y == int(y) \
                and not (isinstance(x, (float,)) or (
                    isinstance(x, T) and x.sort == "float")):
            y, fl = int(y), False
        if fl:
            if op == "<":
                return terms.t_flt(x, y)
            if op == ">":
                return terms.t_flt(y, x)
            if op == "<=":
                # NaN is not modelled for comparisons that can be negated
                return terms.t_not(terms.t_flt(y, x)) if not (
                    isinstance(x, float) and isinstance(y, float)) \
                    else x <= y
            if op == ">=":
                return terms.t_not(terms.t_flt(x, y)) if not (
                    isinstance(x, float) and isinstance(y, float)) \
                    else x >= y
            if op == "==":
                return terms.t_feq(x, y)
            return terms.t_not(terms.t_feq(x, y))
        d = terms.sub(x, y)
        if op == "<":
            r = terms.t_le0(terms.add(d, 1))
        elif op == "<=":
            r = terms.t_le0(d)
        elif op == ">":
            r = terms.t_le0(terms.sub(1, d))
        elif op == ">=":
            r = terms.t_le0(terms.scale(d, -1))
        elif op == "==":
            r = terms.t_eq0(d)
        else:
            r = terms.t_not(terms.t_eq0(d))
        k = st.facts.known(r)
        return r if k is None else k
    vm.cmp_num = cmp_num

    def compare(st, op, a, b):
        ta, tb = type(a), type(b)
        if (ta is int or ta is str or ta is float or ta is bool) and ta is tb:
            return _HOSTCMP[op](a, b)
        if is_arr(st, a) or is_arr(st, b):
            return vm.np.compare(vm, st, op, a, b)
        if isinstance(a, Choice) or isinstance(b, Choice):
            if op in ("==", "!=") and a == b:
                return op == "=="
            if isinstance(a, Choice) and isinstance(b, Choice):
                if a.key != b.key:
                    raise Unmodelled("comparison of unrelated choices")
                bm = dict(b.options)
                vals = [(k, compare(st, op, x, bm[k])) for k, x in a.options
                        if k in bm]
            elif isinstance(a, Choice):
                vals = [(k, compare(st, op, x, b)) for k, x in a.options]
            else:
                vals = [(k, compare(st, op, a, x)) for k, x in b.options]
            key = a.key if isinstance(a, Choice) else b.key
            if any(not isinstance(v, bool) for _, v in vals):
                raise Unmodelled("comparison of a choice")
            good = [k for k, v in vals if v]
            feas = [(k, v) for k, v in vals if key_possible(st, key, k)]
            if all(v for _, v in feas):
                return True
            if not any(v for _, v in feas):
                return False
            if len(good) == 1:
                t = key_eq(key, good[0])
            else:
                t = False
                bad = [k for k, v in vals if not v]
                if len(bad) < len(good):
                    for k in bad:
                        t = bool_op("|", t, key_eq(key, k))
                    t = terms.t_not(t)
                else:
                    for k in good:
                        t = bool_op("|", t, key_eq(key, k))
            return mkbool(t)
        na, nb = num_of(vm, st, a), num_of(vm, st, b)
        if na is not None and nb is not None:
            r = cmp_num(st, op, na[1], nb[1])
            ty = "bool_" if na[0] in NPTYPES or nb[0] in NPTYPES else "bool"
            if isinstance(r, T):
                return A(ty, r)
            return bool(r)
        if op in ("==", "!="):
            for u, w in ((a, b), (b, a)):
                if isinstance(u, Ref) and isinstance(st.get(u), HInst) and \
                        st.get(u).cls == vm.classes.get("dtype"):
                    r = vm.np.eq_dtype(st, u, w)
                    return r if op == "==" else not r
            r = equal(st, a, b)
            if isinstance(r, TailCall):
                if op == "!=":
                    if r.ret is None:
                        r.ret = ("not",)
                return r
            if isinstance(r, A):
                return r if op == "==" else mkbool(terms.t_not(r.m))
            return r if op == "==" else not r
        if isinstance(a, tuple) and isinstance(b, tuple) or (
                is_list(st, a) and is_list(st, b)):
            x = a if isinstance(a, tuple) else st.get(a).items
            y = b if isinstance(b, tuple) else st.get(b).items
            for u, v in zip(x, y):
                e = equal(st, u, v)
                if isinstance(e, TailCall):
                    raise Unmodelled("ordering with Python-level equality")
                if not vm.truth(st, e):
                    return compare(st, op, u, v)
            return _HOSTCMP[op](len(x), len(y))
        if isstr(a) and isstr(b):
            return mkbool(terms.mk("strcmp", (op, _freeze(a), _freeze(b)),
                                   "bool"))
        DN = {"<": ("__lt__", "__gt__"), ">": ("__gt__", "__lt__"),
              "<=": ("__le__", "__ge__"), ">=": ("__ge__", "__le__")}[op]
        for v, o, n in ((a, b, DN[0]), (b, a, DN[1])):
            if isinstance(v, Ref) and isinstance(st.get(v), HInst):
                f = vm.find(st, st.get(v).cls, n)
                if f is not NULL and not isinstance(f, NF):
                    return TailCall(f, (v, o))
        raise vm.exc(st, "TypeError", "'%s' not supported between %s and %s"
                     % (op, vm.describe(st, a), vm.describe(st, b)))
    vm.compare = compare

    def key_possible(st, key, k):
        for t, v in zip(key, k):
            if st.facts.known(terms.t_eq0(terms.sub(t, v))) is False:
                return False
        return True
    vm.key_possible = key_possible

    def key_eq(key, k):
        t = True
        for a, v in zip(key, k):
            t = bool_op("&", t, terms.t_eq0(terms.sub(a, v)))
        return t

    def is_list(st, v):
        return isinstance(v, Ref) and isinstance(st.get(v), HList) and \
            st.get(v).abs is None

    def equal(st, a, b):
        if a is b:
            return True
        na, nb = num_of(vm, st, a), num_of(vm, st, b)
        if na is not None and nb is not None:
            r = cmp_num(st, "==", na[1], nb[1])
            return mkbool(r)
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isstr(a) and isstr(b):
            pa, pb = str_parts(a), str_parts(b)
            if pa == pb:
                return True
            if pa and pb and isinstance(pa[0], str) and isinstance(
                    pb[0], str):
                n = min(len(pa[0]), len(pb[0]))
                if pa[0][:n] != pb[0][:n]:
                    return False
            if pa and pb and isinstance(pa[-1], str) and isinstance(
                    pb[-1], str):
                n = min(len(pa[-1]), len(pb[-1]))
                if n and pa[-1][-n:] != pb[-1][-n:]:
                    return False
            return A("bool", terms.mk("streq", tuple(sorted(
                (_freeze(a), _freeze(b)), key=repr)), "bool"))
        if isinstance(a, tuple) and isinstance(b, tuple) or (
                is_list(st, a) and is_list(st, b)):
            x = a if isinstance(a, tuple) else st.get(a).items
            y = b if isinstance(b, tuple) else st.get(b).items
            if len(x) != len(y):
                return False
            acc = True
            for u, v in zip(x, y):
                e = compare(st, "==", u, v)
                if isinstance(e, TailCall):
                    raise Unmodelled("nested Python-level equality")
                if e is False:
                    return False
                if isinstance(e, A):
                    acc = bool_op("&", acc, e.m)
            return mkbool(acc)
        if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(
                st.get(a), HDict) and isinstance(st.get(b), HDict):
            x, y = st.get(a).d, st.get(b).d
            if x.keys() != y.keys():
                return False
            for k in x:
                e = compare(st, "==", x[k][1], y[k][1])
                if e is not True:
                    return e
            return True
        if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(
                st.get(a), HSet) and isinstance(st.get(b), HSet):
            return st.get(a).d.keys() == st.get(b).d.keys()
        for v, o in ((a, b), (b, a)):
            if isinstance(v, Ref) and isinstance(st.get(v), HInst) and \
                    isinstance(st.get(v).cls, Ref):
                f = vm.find(st, st.get(v).cls, "__eq__")
                if f is not NULL and not isinstance(f, NF):
                    return TailCall(f, (v, o))
        if isinstance(a, A) and isinstance(b, A) and a.ty == b.ty and \
                a.ty in ("obj", "bytes"):
            if a == b:
                return True
            return A("bool", terms.mk("objeq", (a.m, b.m), "bool"))
        if isinstance(a, range) and isinstance(b, range):
            return a == b
        if isinstance(a, bytes) and isinstance(b, bytes):
            return a == b
        if isinstance(a, (Ref, NF, BM)) and isinstance(b, (Ref, NF, BM)):
            return a == b
        if a is None or b is None:
            return False
        return False

    def const_eq(st, a, b):
        r = equal(st, a, b)
        return r is True
    vm.const_eq = const_eq

    def is_(st, a, b):
        if a is b:
            return True
        if isinstance(a, Choice):
            a = vm.resolve(st, a)
        if isinstance(b, Choice):
            b = vm.resolve(st, b)
        if a is b:
            return True
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if type(a) in (int, str, bool, float, tuple) and type(a) is type(b):
            return a == b
        if isinstance(a, A) and isinstance(b, A) and a.ty == b.ty:
            if a == b:
                return True
            if a.ty in ("bool", "int"):
                return st.decide(cmp_num(st, "==", a.m, b.m))
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, A) and x.ty == "bool" and isinstance(y, bool):
                return st.decide(cmp_num(st, "==", x.m, y))
            if isinstance(x, A) and x.ty == "int" and isinstance(
                    y, int) and not isinstance(y, bool):
                return st.decide(cmp_num(st, "==", x.m, y))
        if isinstance(a, (NF, BM)):
            return a == b
        return False
    vm.is_ = is_

    def contains(st, c, v):
        if isstr(c) and isstr(v):
            if isinstance(c, str) and isinstance(v, str):
                return v in c
            if isinstance(v, str) and any(isinstance(p, str) and v in p
                                          for p in str_parts(c)):
                return True
            return A("bool", terms.mk("strin", (_freeze(v), _freeze(c)),
                                      "bool"))
        if isinstance(c, (range, ARange)):
            n = num_of(vm, st, v)
            if n is None:
                return False
            m = n[1]
            if isinstance(c, range) and not isinstance(m, T):
                return m in c
            lo, hi, step = (c.start, c.stop, c.step) if isinstance(
                c, range) else (c.lo, c.hi, c.step)
            if step < 0:
                raise Unmodelled("descending range membership")
            t = bool_op("&", cmp_num(st, ">=", m, lo),
                        cmp_num(st, "<", m, hi))
            if step != 1:
                t = bool_op("&", t, terms.t_eq0(terms.t_mod(
                    terms.sub(m, lo), step)))
            return mkbool(t)
        if isinstance(c, Ref):
            o = st.get(c)
            if isinstance(o, HSet) and o.abs:
                vm.nkey(st, v)
                return A("bool", terms.sym("in", "bool"))
            if isinstance(o, (HDict, HSet)):
                k = vm.nkey(st, v)
                if isinstance(o, HSet) and k not in o.d and (
                        symbolic_key(k) or
                        any(symbolic_key(x) for x in o.d)):
                    for x in o.d.values():
                        e = equal(st, v, x)
                        if isinstance(e, TailCall):
                            raise Unmodelled("membership of objects")
                        if vm.truth(st, e):
                            return True
                    return False
                if symbolic_key(k):
                    i = sym_lookup(st, o.d, k, what="in")
                    return i is not None
                if k in o.d:
                    return True
                if any(symbolic_key(x) for x in o.d):
                    raise Unmodelled("membership among symbolic keys")
                return False
            if isinstance(o, HInst):
                f = vm.find(st, o.cls, "__contains__")
                if f is not NULL:
                    return TailCall(f, (c, v))
            if isinstance(o, HClass) and "__members__" in o.meta:
                return any(m == v for m in enum_members(vm, st, c))
            if isinstance(o, HArr):
                raise Unmodelled("membership in an array")
        items = vm.concrete_items(st, c)
        if items is None:
            if isinstance(c, Ref):
                return TailCall(vm.prelude(st, "_contains"), (c, v))
            raise vm.exc(st, "TypeError", "argument is not iterable")
        acc = False
        for x in items:
            if x is v:
                return True
            r = compare(st, "==", x, v)
            if isinstance(r, TailCall):
                return TailCall(vm.prelude(st, "_contains"), (c, v))
            if r is True:
                return True
            if isinstance(r, A):
                acc = bool_op("|", acc, r.m)
        return mkbool(acc)
    vm.contains = contains

    # ----------------------------------------------------------- subscripts
    def run_lookup(st, d, k, what):
        """The same for a large dict of integers: split by maximal runs of
        consecutive keys with one value."""
        lo, hi = st.facts.rng(k)
        ints = []
        for dk, val in d.items():
            if type(dk) is int:
                if lo <= dk <= hi:
                    ints.append(dk)
            elif isinstance(dk, T) and dk.sort == "int":
                if dk is k or st.decide(terms.t_eq0(terms.sub(k, dk))):
                    return [(None, val)]
            elif isinstance(dk, (tuple, T)):
                raise Unmodelled("symbolic keys in a dictionary")
        ints.sort()
        runs = []
        for x in ints:
            v = None if what == "in" else d[x][1]
            if runs and runs[-1][1] == x - 1 and (
                    v is runs[-1][2] or type(v) is type(runs[-1][2]) and
                    isinstance(v, (int, str, Ref)) and v == runs[-1][2]):
                runs[-1][1] = x
            else:
                runs.append([x, x, v])
        segs = []
        at = lo
        for a, b, v in runs:
            if a > at:
                segs.append((at, a - 1, None))
            segs.append((a, b, d[a]))
            at = b + 1
        if at <= hi:
            segs.append((at, hi, None))
        a, b, val = segs[st.choose(tuple(range(len(segs))))]
        if a != -INF:
            st.facts.assume(terms.t_le0(terms.sub(a, k)), True)
        if b != INF:
            st.facts.assume(terms.t_le0(terms.sub(k, b)), True)
        return None if val is None else [(None, val)]

    def sym_lookup(st, d, k, what="get"):
        """Look a symbolic key up in a dict with constant keys.  Returns the
        dict value, a list of (key, value) options, or None if absent (after
        forking)."""
        kt = k if isinstance(k, tuple) else (k,)
        if len(d) > 64 and isinstance(k, T) and k.sort == "int":
            return run_lookup(st, d, k, what)
        cands = []
        for dk, val in d.items():
            dt = dk if isinstance(k, tuple) else (dk,)
            if not isinstance(dt, tuple) or len(dt) != len(kt):
                continue
            if k == dk:
                return [(None, val)]
            ok = True
            for a, b in zip(kt, dt):
                if isinstance(a, T) and a.sort == "str":
                    if not isinstance(b, str):
                        ok = False
                    continue
                if isinstance(b, T) or isinstance(b, (str, Ref)) or b is None:
                    if a == b:
                        continue
                    if isinstance(b, T) and isinstance(a, (T, int)):
                        if len(kt) == 1 and b.sort == "int" and not (
                                isinstance(a, T) and a.sort != "int"):
                            if st.decide(terms.t_eq0(terms.sub(a, b))):
                                return [(None, val)]
                            ok = False
                            break
                        raise Unmodelled("symbolic keys in a dictionary")
                    ok = False
                    break
                if isinstance(a, (str, Ref)) or a is None:
                    ok = False
                    break
                if isinstance(a, T) and a.sort == "bool":
                    if st.facts.known(a) is (not bool(b)) or b not in (0, 1):
                        ok = False
                        break
                    continue
                if st.facts.known(terms.t_eq0(terms.sub(a, b))) is False:
                    ok = False
                    break
            if ok:
                cands.append((dt, val))
        # does the key's range lie within the known keys?
        total = 1
        for a in kt:
            if isinstance(a, T):
                if a.sort == "str":
                    total = INF
                    break
                if a.sort == "bool":
                    total *= 2 if st.facts.known(a) is None else 1
                    continue
                lo, hi = st.facts.rng(a)
                m, r = st.facts.cong(a)
                if hi - lo > 1e6:
                    total = INF
                    break
                if m == 0:
                    n = 1
                elif m > 1:
                    first = lo + (r - lo) % m
                    n = max(0, (hi - first) // m + 1)
                else:
                    n = hi - lo + 1
                total *= n
        covered = len(cands) == total
        if not covered:
            if st.choose((True, False)):
                if not cands:
                    raise Infeasible()
                # present: keep the key within the hull of the candidates
                for i, a in enumerate(kt):
                    if isinstance(a, T) and a.sort == "int":
                        vs = [c[0][i] for c in cands]
                        st.facts.assume(terms.t_le0(terms.sub(
                            min(vs), a)), True)
                        st.facts.assume(terms.t_le0(terms.sub(
                            a, max(vs))), True)
            else:
                if len(kt) == 1 and isinstance(kt[0], T) and \
                        kt[0].sort == "int":
                    for c in cands:
                        st.facts.assume(terms.t_eq0(terms.sub(
                            kt[0], c[0][0])), False)
                return None
        return cands

    def pick(st, kt, cands, fork_ok=True):
        if len(cands) == 1:
            dt, val = cands[0]
            if dt is not None:
                assume_key(st, kt, dt)
            return val
        vals = [(d, v) for d, v in cands]
        simple = all(isinstance(a, T) and a.sort == "int" or
                     not isinstance(a, T) for a in kt)
        if simple:
            idx = [i for i, a in enumerate(kt) if isinstance(a, T)]
            key = tuple(kt[i] for i in idx)
            opts = tuple((tuple(d[i] for i in idx), v) for d, v in vals)
            if all(isinstance(v, (int, Ref, str, NF, tuple)) or v is None
                   for _, v in opts) and (len(opts) > 4 or len(
                       {type(v) for _, v in opts}) == 1 and isinstance(
                           opts[0][1], int)):
                return vm.merge_choice(st, key, opts)
        i = st.choose(tuple(range(len(cands))))
        assume_key(st, kt, cands[i][0])
        return cands[i][1]

    def assume_key(st, kt, dt):
        for a, b in zip(kt, dt):
            if isinstance(a, T):
                if a.sort == "bool":
                    st.facts.assume(a, bool(b))
                elif a.sort == "int":
                    st.facts.assume(terms.t_eq0(terms.sub(a, b)), True)
                elif a.sort == "str":
                    st.facts.sub.setdefault(a, b) if a.op == "sym" else None

    def norm_index(st, m, n):
        """index into a sequence of length n (host int); raises IndexError"""
        if not isinstance(m, T):
            if m < -n or m >= n:
                raise vm.exc(st, "IndexError", "index out of range")
            return m + n if m < 0 else m
        lo, hi = st.facts.rng(m)
        if not (lo >= -n and hi < n):
            if st.decide(bool_op("|", cmp_num(st, "<", m, -n),
                                 cmp_num(st, ">=", m, n))):
                raise vm.exc(st, "IndexError", "index out of range")
        lo, hi = st.facts.rng(m)
        if lo < 0:
            if st.decide(terms.t_le0(terms.add(m, 1))):
                m = terms.add(m, n)
        c = st.facts.const(m)
        return m if c is None else c

    def seq_get(st, items, m):
        i = norm_index(st, m, len(items))
        if not isinstance(i, T):
            return items[i]
        lo, hi = st.facts.rng(i)
        mod, r = st.facts.cong(i)
        opts = [((k,), items[k]) for k in range(max(0, int(lo)),
                                                min(len(items) - 1,
                                                    int(hi)) + 1)
                if mod <= 1 or k % mod == r % mod]
        return pick(st, (i,), opts)

    def slice_bounds(st, s, n):
        def one(v, d, lo_, hi_):
            if v is None:
                return d
            m = num_of(vm, st, v)
            if m is None:
                raise vm.exc(st, "TypeError", "slice index")
            m = m[1]
            if isinstance(m, T):
                c = st.concretize(m, 300)
                if c is None:
                    raise Unmodelled("symbolic slice bound")
                m = c
            return m
        step = one(s.step, 1, 0, 0)
        return slice(one(s.start, None, 0, 0), one(s.stop, None, 0, 0),
                     step)

    def getitem(st, c, k):
        if isinstance(c, Choice):
            return choice_map(st, c, lambda x: getitem(st, x, k))
        if isinstance(c, Ref):
            o = st.get(c)
            if isinstance(o, HArr):
                return vm.np.getitem(vm, st, c, k)
            if isinstance(o, HDict):
                key = vm.nkey(st, k)
                if key in o.d:
                    return o.d[key][1]
                if symbolic_key(key):
                    kt = key if isinstance(key, tuple) else (key,)
                    r = sym_lookup(st, o.d, key)
                    if r is not None:
                        r = [(d, v[1]) for d, v in r]
                        return pick(st, kt, r)
                elif any(symbolic_key(x) for x in o.d):
                    for x, val in o.d.items():
                        if not symbolic_key(x):
                            continue
                        if type(key) is int and isinstance(x, T) and \
                                x.sort == "int":
                            if st.decide(terms.t_eq0(terms.sub(x, key))):
                                return val[1]
                        else:
                            raise Unmodelled("lookup among symbolic keys")
                elif isinstance(key, tuple) and key and key[0] == "choice":
                    return choice_map(st, k, lambda x: getitem(st, c, x))
                if o.default is not None:
                    return TailCall(NF("__missing__", _missing), (c, k))
                raise vm.exc(st, "KeyError", k)
            if isinstance(o, HList):
                if isinstance(k, slice):
                    if o.abs is None:
                        return st.new(HList(o.items[slice_bounds(
                            st, k, len(o.items))]))
                    return abs_slice(st, o, k)
                n = num_of(vm, st, k)
                if n is None or is_float(n[0]):
                    raise vm.exc(st, "TypeError",
                                 "list indices must be integers")
                if o.abs is not None:
                    return abs_get(st, o, n[1])
                return seq_get(st, o.items, n[1])
            if isinstance(o, HClass):
                if "__members__" in o.meta:
                    k2 = const_str(st, k)
                    d = st.get(o.meta["__members__"]).d
                    if isinstance(k2, str):
                        if k2 in d:
                            return d[k2][1]
                        raise vm.exc(st, "KeyError", k)
                    ks = list(d)
                    i = st.choose(tuple(range(len(ks) + 1)))
                    if i == len(ks):
                        raise vm.exc(st, "KeyError", k)
                    if isinstance(k2, A) and k2.m.op == "sym":
                        st.facts.sub[k2.m] = ks[i]
                        st.facts._c.clear()
                    return d[ks[i]][1]
                return c  # subscripted generic alias
            if isinstance(o, HInst):
                if isinstance(o.cls, Ref):
                    f = vm.find(st, o.cls, "__getitem__")
                    if f is not NULL:
                        if isinstance(f, NF):
                            return f.fn(vm, st, (c, k), {})
                        return TailCall(f, (c, k))
                g = o.attrs.get("__getitem__")
                if isinstance(g, NF):
                    return g.fn(vm, st, (k,), {})
            raise vm.exc(st, "TypeError", "%s is not subscriptable" %
                         vm.describe(st, c))
        if isinstance(c, tuple):
            if isinstance(k, slice):
                return c[slice_bounds(st, k, len(c))]
            n = num_of(vm, st, k)
            if n is None:
                raise vm.exc(st, "TypeError", "tuple indices")
            return seq_get(st, c, n[1])
        if isinstance(c, (str, bytes, range)):
            if isinstance(k, slice):
                s = slice_bounds(st, k, len(c))
                return c[s]
            n = num_of(vm, st, k)
            if n is None:
                raise vm.exc(st, "TypeError", "indices must be integers")
            i = norm_index(st, n[1], len(c))
            if isinstance(i, T):
                if isinstance(c, range):
                    return mkA("int", terms.add(c.start, i, c.step))
                if isinstance(c, str):
                    return A("str", terms.mk("charat", (c, i), "str"))
                return pick(st, (i,), [((j,), x) for j, x in enumerate(c)
                                       if key_possible(st, (i,), (j,))])
            return c[i]
        if isinstance(c, A) and c.ty in ("str", "bytes"):
            if isinstance(c.m, (str, bytes)):
                return getitem(st, c.m, k)
            return str_getitem(st, c, k)
        if isinstance(c, NF):
            return c
        if c is None or isinstance(c, (int, float, A)):
            raise vm.exc(st, "TypeError", "object is not subscriptable")
        raise Unmodelled("subscript of %r" % (c,))
    vm.getitem = getitem

    def str_getitem(st, c, k):
        def fz(x):
            if isinstance(x, slice):
                return tuple(fz(y) for y in (x.start, x.stop, x.step))
            return x.m if isinstance(x, A) else x
        if isinstance(k, slice):
            return A(c.ty, terms.mk("slice", (c.m, fz(k)), "str"))
        if c.ty == "bytes":
            t = terms.mk("byteat", (c.m, fz(k)), "int")
            st.facts.iv.setdefault(t, (0, 255, 1, 0))
            return mkA("int", t)
        return A("str", terms.mk("charat", (c.m, fz(k)), "str"))

    def _missing(vm, st, args, kw):
        c, k = args
        return TailCall(st.get(c).default, (), {}, ("native", _set_missing,
                                                    (c, k)))

    def _set_missing(vm, st, v, c, k):
        st.mut(c).d[vm.nkey(st, k)] = (k, v)
        return v

    def abs_get(st, o, m):
        a = o.abs
        if isinstance(a, SegList):
            if not isinstance(m, T):
                if m < 0 and not any(a.multi[m:]) and -m <= len(a.segs):
                    return str_mk(a.segs[m])
                if m >= 0 and not any(a.multi[:m + 1]) and m < len(a.segs):
                    return str_mk(a.segs[m])
            return A("str", terms.mk("seg", (_freeze(a.segs), a.sep, m),
                                     "str"))
        i = m
        ok = bool_op("&", cmp_num(st, ">=", i, terms.scale(a.n, -1)),
                     cmp_num(st, "<", i, a.n))
        if not st.decide(ok):
            raise vm.exc(st, "IndexError", "list index out of range")
        return a.fresh(st, vm)

    def abs_slice(st, o, k):
        a = o.abs
        if isinstance(a, SegList):
            lo = 0 if k.start is None else num_of(vm, st, k.start)[1]
            hi = None if k.stop is None else num_of(vm, st, k.stop)[1]
            if k.step is None and not isinstance(lo, T) and not isinstance(
                    hi, T):
                if lo == 0 and hi is not None and hi < 0 and not any(
                        a.multi[hi:]) and -hi <= len(a.segs):
                    return st.new(HList(None, SegList(
                        a.segs[:hi], a.sep, a.multi[:hi])))
                if hi is None and lo >= 0 and not any(a.multi[:lo]) and \
                        lo <= len(a.segs):
                    return st.new(HList(None, SegList(
                        a.segs[lo:], a.sep, a.multi[lo:])))
                if hi is None and lo < 0 and not any(a.multi[lo:]) and \
                        -lo <= len(a.segs):
                    return st.new(HList([str_mk(s) for s in a.segs[lo:]]))
            raise Unmodelled("slice of an abstract split")
        n = st.sym("slen", 0, INF)
        st.facts.assume(terms.t_le0(terms.sub(n, a.n)), True)
        return st.new(HList(None, a.with_n(n)))

    def setitem(st, c, k, v):
        if isinstance(c, Ref):
            o = st.get(c)
            if isinstance(o, HArr):
                return vm.np.setitem(vm, st, c, k, v)
            if isinstance(o, HDict):
                key = vm.nkey(st, k)
                if key not in o.d and len(o.d) <= 64 and (
                        isinstance(key, T) and key.sort == "int" or
                        type(key) is int) and any(
                            isinstance(x, T) for x in o.d) and all(
                            type(x) is int or isinstance(x, T) and
                            x.sort == "int" for x in o.d):
                    # one of the keys there, or a new one
                    for x in o.d:
                        if st.decide(terms.t_eq0(terms.sub(key, x))):
                            key, k = x, o.d[x][0]
                            break
                elif symbolic_key(key) and key not in o.d:
                    kt = key if isinstance(key, tuple) else (key,)
                    r = sym_lookup(st, o.d, key)
                    if r is not None and o.d:
                        i = st.choose(tuple(range(len(r))))
                        assume_key(st, kt, r[i][0] or kt)
                        key = vm.nkey(st, k)
                        if symbolic_key(key):
                            raise Unmodelled("store to a symbolic key")
                    # absent: a new symbolic key
                st.mut(c).d[key] = (k, v)
                h = vm.hooks.get("setitem")
                if h:
                    h(vm, st, c, k, v)
                return
            if isinstance(o, HList):
                if o.abs is not None:
                    if isinstance(o.abs, AbsList):
                        st.mut(c).abs = weak_add(vm, st, o.abs, v, o.abs.n)
                        return
                    raise Unmodelled("store into an abstract list")
                if isinstance(k, slice):
                    items = vm.concrete_items(st, v)
                    if items is None:
                        raise Unmodelled("slice store")
                    st.mut(c).items[slice_bounds(st, k, 0)] = items
                    return
                n = num_of(vm, st, k)
                if n is None:
                    raise vm.exc(st, "TypeError", "list indices")
                i = norm_index(st, n[1], len(o.items))
                if isinstance(i, T):
                    i = st.concretize(i, 600)
                    if i is None:
                        raise Unmodelled("store at a symbolic list index")
                st.mut(c).items[i] = v
                return
            if isinstance(o, HInst):
                if isinstance(o.cls, Ref):
                    f = vm.find(st, o.cls, "__setitem__")
                    if f is not NULL:
                        if isinstance(f, NF):
                            f.fn(vm, st, (c, k, v), {})
                            return
                        return TailCall(f, (c, k, v))
                g = o.attrs.get("__setitem__")
                if isinstance(g, NF):
                    g.fn(vm, st, (k, v), {})
                    return
        raise vm.exc(st, "TypeError", "%s does not support item assignment"
                     % vm.describe(st, c))
    vm.setitem = setitem

    def delitem(st, c, k):
        o = st.get(c)
        if isinstance(o, HDict):
            key = vm.nkey(st, k)
            if key not in o.d:
                raise vm.exc(st, "KeyError", k)
            st.mut(c).d.pop(key)
            return
        if isinstance(o, HList) and o.abs is None:
            if isinstance(k, slice):
                del st.mut(c).items[slice_bounds(st, k, 0)]
                return
            i = norm_index(st, num_of(vm, st, k)[1], len(o.items))
            if not isinstance(i, T):
                del st.mut(c).items[i]
                return
        raise Unmodelled("del of an item")
    vm.delitem = delitem

    # ------------------------------------------------------------ iteration
    def get_iter(st, v):
        if isinstance(v, (tuple, str, bytes)):
            return st.new(HIter("seq", v if not isinstance(v, bytes)
                                else tuple(v)))
        if isinstance(v, range):
            if len(v) > vm.range_unroll and v.step > 0:
                return st.new(HIter("arange", (
                    v.start, v.start + len(v) * v.step, v.step), v.start))
            return st.new(HIter("seq", v))
        if isinstance(v, ARange):
            return st.new(HIter("arange", (v.lo, v.hi, v.step), v.lo))
        if isinstance(v, A) and v.ty == "bytes":
            return st.new(HIter("bytes", v.m, 0))
        if isinstance(v, A) and v.ty == "str" and isinstance(v.m, str):
            return st.new(HIter("seq", v.m))
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, (HGen, HIter)):
                return v
            if isinstance(o, HList):
                if o.abs is not None:
                    if isinstance(o.abs, SegList):
                        raise Unmodelled("iteration over an abstract split")
                    return st.new(HIter("abs", v, 0))
                return st.new(HIter("list", v))
            if isinstance(o, HDict):
                return st.new(HIter("seq", tuple(
                    k for k, _ in o.d.values())))
            if isinstance(o, HSet):
                return st.new(HIter("seq", tuple(o.d.values())))
            if isinstance(o, HClass) and "__members__" in o.meta:
                return st.new(HIter("seq", tuple(enum_members(vm, st, v))))
            if isinstance(o, HArr):
                return st.new(HIter("arr", v, 0))
            if isinstance(o, HInst):
                f = vm.find(st, o.cls, "__iter__")
                if f is not NULL:
                    if isinstance(f, NF):
                        return f.fn(vm, st, (v,), {})
                    return TailCall(f, (v,), {}, ("native", _iter_done, ()))
                if "__iter__" in o.attrs:
                    return vm.call(st, o.attrs["__iter__"], ())
                f = vm.find(st, o.cls, "__getitem__")
                if f is not NULL:
                    return TailCall(vm.prelude(st, "_iter_getitem"), (v,))
        raise vm.exc(st, "TypeError", "%s object is not iterable" %
                     vm.describe(st, v))
    vm.get_iter = get_iter

    def _iter_done(vm, st, v):
        if isinstance(v, Ref) and isinstance(st.get(v), HInst):
            return TailCall(vm.prelude(st, "_iter_class"), (v,))
        return v

    def iter_next(st, ref):
        o = st.get(ref)
        if o.kind == "seq":
            if o.pos >= len(o.data):
                return NULL
            v = o.data[o.pos]
            st.mut(ref).pos = o.pos + 1
            return v
        if o.kind == "list":
            l = st.get(o.data)
            if l.abs is not None:
                st.mut(ref).kind = "abs"
                return iter_next(st, ref)
            if o.pos >= len(l.items):
                st.mut(ref).pos = 10 ** 9
                return NULL
            v = l.items[o.pos]
            st.mut(ref).pos = o.pos + 1
            return v
        if o.kind == "arange":
            lo, hi, step = o.data
            if not st.decide(cmp_num(st, "<", o.pos, hi)):
                return NULL
            v = mkA("int", o.pos)
            st.mut(ref).pos = terms.add(o.pos, step)
            return v
        if o.kind == "abs":
            l = st.get(o.data)
            if not st.decide(cmp_num(st, "<", o.pos, l.abs.n)):
                return NULL
            v = l.abs.fresh(st, vm)
            st.mut(ref).pos = terms.add(o.pos, 1)
            return v
        if o.kind == "bytes":
            n = vm.length(st, A("bytes", o.data))
            n = n.m if isinstance(n, A) else n
            if not st.decide(cmp_num(st, "<", o.pos, n)):
                return NULL
            t = terms.mk("byteat", (o.data, o.pos), "int")
            st.facts.iv.setdefault(t, (0, 255, 1, 0))
            st.mut(ref).pos = terms.add(o.pos, 1)
            return mkA("int", t)
        if o.kind == "arr":
            a = st.get(o.data)
            if not st.decide(cmp_num(st, "<", o.pos, a.shape[0])):
                return NULL
            v = vm.np.getitem(vm, st, o.data, mkA("int", o.pos))
            st.mut(ref).pos = terms.add(o.pos, 1)
            return v
        if o.kind == "native":
            return o.data(vm, st, ref)
        raise Unmodelled("iterator kind %s" % o.kind)
    vm.iter_next = iter_next

    def iter_concrete(st, it):
        if it.kind == "seq":
            return not (isinstance(it.data, range) and
                        len(it.data) > vm.range_unroll)
        if it.kind == "list":
            l = st.get(it.data)
            return l.abs is None
        if it.kind == "native":
            return False
        return False
    vm.iter_concrete = iter_concrete

    def concrete_items(st, v, consume=False):
        if isinstance(v, (tuple, str)):
            return list(v)
        if isinstance(v, bytes):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, A) and v.ty == "str" and isinstance(v.m, str):
            return list(v.m)
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, HList):
                return list(o.items) if o.abs is None else None
            if isinstance(o, HDict):
                return [k for k, _ in o.d.values()]
            if isinstance(o, HSet):
                return list(o.d.values())
            if isinstance(o, HClass) and "__members__" in o.meta:
                return enum_members(vm, st, v)
            if isinstance(o, HIter):
                if o.kind == "seq":
                    r = list(o.data[o.pos:])
                    if consume:
                        st.mut(v).pos = len(o.data)
                    return r
                if o.kind == "list" and st.get(o.data).abs is None:
                    r = st.get(o.data).items[o.pos:]
                    if consume:
                        st.mut(v).pos = 10 ** 9
                    return r
            if isinstance(o, HArr):
                sh = o.shape
                if len(sh) >= 1 and not isinstance(sh[0], T) and \
                        sh[0] <= 64:
                    return [vm.np.getitem(vm, st, v, i)
                            for i in range(sh[0])]
        return None
    vm.concrete_items = concrete_items

    def unpack_items(st, v, n):
        if isinstance(v, Choice):
            lens = {len(x) if isinstance(x, tuple) else None
                    for _, x in v.options}
            if len(lens) == 1 and None not in lens:
                m = lens.pop()
                return [vm.merge_choice(st, v.key, tuple(
                    (k, x[i]) for k, x in v.options)) for i in range(m)]
        if v is None or isinstance(v, (int, float)) or (
                isinstance(v, A) and v.ty not in ("str", "bytes")):
            raise vm.exc(st, "TypeError", "cannot unpack non-iterable")
        return concrete_items(st, v)
    vm.unpack_items = unpack_items

    # --------------------------------------------------------------- methods
    M = vm.methods
    for t in ("list", "dict", "set", "str", "bytes", "tuple", "generator",
              "iterator", "int", "float", "bool", "range", "function",
              "slice"):
        M.setdefault(t, {})

    def meth(ty, *names):
        def d(fn):
            for n in names:
                M[ty][n] = NF(n, fn)
            return fn
        return d

    @meth("slice", "indices")
    def sl_indices(vm, st, a, kw):
        return TailCall(vm.prelude(st, "_slice_indices"), a)

    def weak_add(vm, st, a, v, n):
        """abstract list after adding v"""
        return abs_add(vm, st, a, v, n)
    vm.weak_add = weak_add

    def list_append(st, ref, v):
        o = st.get(ref)
        h = vm.hooks.get("append")
        if o.abs is not None:
            if isinstance(o.abs, AbsList):
                a = weak_add(vm, st, o.abs, v, terms.add(o.abs.n, 1))
                st.mut(ref).abs = a
                return
            st.mut(ref).abs = SegList(o.abs.segs + (tuple(str_parts(v)),),
                                      o.abs.sep, o.abs.multi + (False,))
            return
        st.mut(ref).items.append(v)
    vm.list_append = list_append

    @meth("list", "append")
    def l_append(vm, st, a, kw):
        list_append(st, a[0], a[1])

    @meth("list", "extend")
    def extend(vm, st, a, kw):
        o = st.get(a[0])
        items = concrete_items(st, a[1], consume=True)
        if items is None:
            if isinstance(a[1], Ref) and isinstance(st.get(a[1]), HList) \
                    and isinstance(st.get(a[1]).abs, AbsList):
                b = st.get(a[1]).abs
                if o.abs is None and not o.items:
                    m = st.mut(a[0])
                    m.items, m.abs = None, b
                    return None
            if isinstance(a[1], A) and a[1].ty == "bytes":
                return opaque_extend(vm, st, a[0], a[1])
            return TailCall(vm.prelude(st, "_extend"), a)
        if o.abs is not None:
            for i in items:
                list_append(st, a[0], i)
        else:
            st.mut(a[0]).items.extend(items)
        return None

    def opaque_extend(vm, st, ref, b):
        """append unknown bytes"""
        n = vm.length(st, b)
        n = n.m if isinstance(n, A) else n
        e = terms.sym("byte")
        o = st.get(ref)
        if o.abs is None:
            n = terms.add(n, len(o.items))
        else:
            n = terms.add(n, o.abs.n)
        m = st.mut(ref)
        m.items, m.abs = None, AbsList(A("int", e), ((e, (0, 255, 1, 0)),),
                                       n)
        return None

    def opaque_bytearray(st, v):
        r = st.new(HList([]))
        opaque_extend(vm, st, r, v)
        return r
    vm.opaque_bytearray = opaque_bytearray

    @meth("list", "pop")
    def l_pop(vm, st, a, kw):
        o = st.get(a[0])
        if o.abs is not None:
            if isinstance(o.abs, SegList):
                if len(a) == 1 and not o.abs.multi[-1]:
                    v = str_mk(o.abs.segs[-1])
                    st.mut(a[0]).abs = SegList(o.abs.segs[:-1], o.abs.sep,
                                               o.abs.multi[:-1])
                    return v
                raise Unmodelled("pop from an abstract split")
            if not st.decide(cmp_num(st, ">", o.abs.n, 0)):
                raise vm.exc(st, "IndexError", "pop from empty list")
            b = o.abs
            v = b.fresh(st, vm)
            st.mut(a[0]).abs = b.with_n(terms.sub(b.n, 1))
            return v
        if not o.items:
            raise vm.exc(st, "IndexError", "pop from empty list")
        i = -1
        if len(a) > 1:
            i = norm_index(st, num_of(vm, st, a[1])[1], len(o.items))
            if isinstance(i, T):
                raise Unmodelled("pop at a symbolic index")
        return st.mut(a[0]).items.pop(i)

    @meth("list", "insert")
    def l_insert(vm, st, a, kw):
        o = st.get(a[0])
        i = num_of(vm, st, a[1])[1]
        if o.abs is not None:
            return list_append(st, a[0], a[2])
        if isinstance(i, T):
            raise Unmodelled("insert at a symbolic index")
        st.mut(a[0]).items.insert(i, a[2])

    @meth("list", "clear")
    def l_clear(vm, st, a, kw):
        o = st.mut(a[0])
        o.items, o.abs = [], None

    @meth("list", "copy")
    def l_copy(vm, st, a, kw):
        o = st.get(a[0])
        return st.new(HList(list(o.items) if o.items is not None else None,
                            o.abs))

    @meth("list", "reverse")
    def l_reverse(vm, st, a, kw):
        o = st.get(a[0])
        if o.abs is None:
            st.mut(a[0]).items.reverse()

    @meth("list", "remove")
    def l_remove(vm, st, a, kw):
        o = st.get(a[0])
        if o.abs is not None:
            raise Unmodelled("remove from an abstract list")
        for i, x in enumerate(o.items):
            r = compare(st, "==", x, a[1])
            if isinstance(r, TailCall):
                raise Unmodelled("remove with Python equality")
            if vm.truth(st, r):
                del st.mut(a[0]).items[i]
                return
        raise vm.exc(st, "ValueError", "x not in list")

    @meth("list", "index")
    @meth("tuple", "index")
    def l_index(vm, st, a, kw):
        for i, x in enumerate(concrete_items(st, a[0])):
            if vm.truth(st, compare(st, "==", x, a[1])):
                return i
        raise vm.exc(st, "ValueError", "not in list")

    @meth("list", "count")
    @meth("tuple", "count")
    def l_count(vm, st, a, kw):
        n = 0
        for x in concrete_items(st, a[0]):
            if vm.truth(st, compare(st, "==", x, a[1])):
                n += 1
        return n

    @meth("list", "sort")
    def l_sort(vm, st, a, kw):
        key = kw.get("key")
        rev = kw.get("reverse", False)
        o = st.get(a[0])
        if o.abs is not None:
            return None
        if key is not None:
            if isinstance(rev, bool):
                return TailCall(vm.prelude(st, "_sortkeys"),
                                (a[0], key, rev), {})
        keys = list(o.items)
        return do_sort(vm, st, a[0], keys, rev)

    def do_sort(vm, st, ref, keys, rev):
        import functools
        items = st.get(ref).items

        def hostkey(k):
            if isinstance(k, (int, float, str)):
                return k
            if isinstance(k, tuple):
                return tuple(hostkey(x) for x in k)
            if isinstance(k, A) and not isinstance(k.m, T):
                return k.m
            n = num_of(vm, st, k)
            if n is not None:
                c = st.facts.const(n[1])
                if c is not None:
                    return c
            raise Unmodelled("sort with symbolic keys")
        if len(keys) > 1:
            try:
                ks = [hostkey(k) for k in keys]
            except Unmodelled:
                if len(keys) > 200 or not isinstance(rev, bool):
                    raise
                return TailCall(vm.prelude(st, "_isort"), (
                    ref, st.new(HList(list(keys))), rev))
            try:
                order = sorted(range(len(ks)), key=lambda i: ks[i],
                               reverse=bool(rev))
            except TypeError as e:
                raise vm.exc(st, "TypeError", str(e))
            st.mut(ref).items = [items[i] for i in order]
        return None

    def _sort2(vm, st, a, kw):
        return do_sort(vm, st, a[0], st.get(a[1]).items, a[2])
    vm.builtins["_sort2"] = NF("_sort2", _sort2)

    # generators
    @meth("generator", "__next__")
    @meth("iterator", "__next__")
    def g_next(vm, st, a, kw):
        return vm.builtins["next"].fn(vm, st, a, kw)

    @meth("generator", "__iter__")
    @meth("iterator", "__iter__")
    def g_iter(vm, st, a, kw):
        return a[0]

    @meth("generator", "send")
    def g_send(vm, st, a, kw):
        r = vm.resume_gen(st, a[0], a[1], ("next", NULL))
        if r == "done":
            raise vm.exc(st, "StopIteration")
        return PUSHED

    @meth("generator", "close")
    def g_close(vm, st, a, kw):
        g = st.get(a[0])
        if g.state != "done":
            if g.frame is not None and g.frame.ip and g.frame.ci.exc and \
                    any(e[0] <= g.frame.cur < e[1] and
                        g.frame.ci.ops[e[2]][0] != "CALL_INTRINSIC_1"
                        for e in g.frame.ci.exc):
                raise Unmodelled("closing a generator inside try")
            g = st.mut(a[0])
            g.state, g.frame = "done", None
        return None

    # dict
    @meth("dict", "get")
    def d_get(vm, st, a, kw):
        o = st.get(a[0])
        k = vm.nkey(st, a[1])
        dflt = a[2] if len(a) > 2 else kw.get("default")
        if k in o.d:
            return o.d[k][1]
        if symbolic_key(k):
            kt = k if isinstance(k, tuple) else (k,)
            r = sym_lookup(st, o.d, k)
            if r is None:
                return dflt
            return pick(st, kt, [(d, v[1]) for d, v in r])
        return dflt

    @meth("dict", "setdefault")
    def d_setdefault(vm, st, a, kw):
        o = st.get(a[0])
        k = vm.nkey(st, a[1])
        if symbolic_key(k):
            raise Unmodelled("setdefault with a symbolic key")
        if k in o.d:
            return o.d[k][1]
        v = a[2] if len(a) > 2 else None
        st.mut(a[0]).d[k] = (a[1], v)
        return v

    @meth("dict", "items")
    def d_items(vm, st, a, kw):
        return tuple((k, v) for k, v in st.get(a[0]).d.values())

    @meth("dict", "keys")
    def d_keys(vm, st, a, kw):
        return st.new(HSet({n: k for n, (k, _) in st.get(a[0]).d.items()}))

    @meth("dict", "values")
    def d_values(vm, st, a, kw):
        return tuple(v for _, v in st.get(a[0]).d.values())

    @meth("dict", "update")
    def d_update(vm, st, a, kw):
        d = dict(st.get(a[0]).d)
        if len(a) > 1:
            if isinstance(a[1], Ref) and isinstance(st.get(a[1]), HDict):
                d.update(st.get(a[1]).d)
            else:
                for p in concrete_items(st, a[1]):
                    k, v = unpack_items(st, p, 2)
                    d[vm.nkey(st, k)] = (k, v)
        for k, v in kw.items():
            d[k] = (k, v)
        st.mut(a[0]).d = d

    @meth("dict", "pop")
    def d_pop(vm, st, a, kw):
        k = vm.nkey(st, a[1])
        o = st.get(a[0])
        if k in o.d:
            return st.mut(a[0]).d.pop(k)[1]
        if symbolic_key(k):
            raise Unmodelled("pop of a symbolic key")
        if len(a) > 2:
            return a[2]
        raise vm.exc(st, "KeyError", a[1])

    @meth("dict", "copy")
    @meth("set", "copy")
    def d_copy(vm, st, a, kw):
        return st.new(st.get(a[0]).copy())

    @meth("dict", "clear")
    @meth("set", "clear")
    def d_clear(vm, st, a, kw):
        st.mut(a[0]).d = {}

    @meth("set", "add")
    def s_add(vm, st, a, kw):
        k = vm.nkey(st, a[1])
        if not st.get(a[0]).abs:
            st.mut(a[0]).d[k] = a[1]

    @meth("set", "discard")
    def s_discard(vm, st, a, kw, must=False):
        k = vm.nkey(st, a[1])
        o = st.get(a[0])
        if o.abs:
            if must and not st.choose((True, False)):
                raise vm.exc(st, "KeyError", "set.remove")
            return
        if k not in o.d:
            if symbolic_key(k) or any(symbolic_key(x) for x in o.d):
                raise Unmodelled("removal among symbolic keys")
            if must:
                raise vm.exc(st, "KeyError", "set.remove")
        st.mut(a[0]).d.pop(k, None)

    @meth("set", "remove")
    def s_remove(vm, st, a, kw):
        return s_discard(vm, st, a, kw, True)

    @meth("set", "update")
    def s_update(vm, st, a, kw):
        if st.get(a[0]).abs:
            return
        for i in concrete_items(st, a[1]):
            st.mut(a[0]).d[vm.nkey(st, i)] = i

    @meth("set", "union")
    def s_union(vm, st, a, kw):
        d = dict(st.get(a[0]).d)
        for x in a[1:]:
            for i in concrete_items(st, x):
                d[vm.nkey(st, i)] = i
        return st.new(HSet(d))

    # ints
    @meth("int", "bit_length")
    def i_bl(vm, st, a, kw):
        m = num_of(vm, st, a[0])[1]
        if isinstance(m, T):
            lo, hi = st.facts.rng(m)
            t = terms.mk("bit_length", (m,), "int")
            if hi < INF and lo >= 0:
                st.facts.iv.setdefault(t, (int(lo).bit_length(),
                                           int(hi).bit_length(), 1, 0))
            return A("int", t)
        return m.bit_length()

    @meth("int", "to_bytes")
    def i_tb(vm, st, a, kw):
        m = num_of(vm, st, a[0])[1]
        n = a[1] if len(a) > 1 else kw.get("length", 1)
        order = a[2] if len(a) > 2 else kw.get("byteorder", "big")
        lo, hi = (m, m) if not isinstance(m, T) else st.facts.rng(m)
        if lo < 0 or hi >= 1 << (8 * n):
            if not isinstance(m, T) or st.choose((True, False)):
                raise vm.exc(st, "OverflowError", "int too big to convert")
            st.facts.assume(terms.t_le0(terms.scale(m, -1)), True)
            st.facts.assume(terms.t_le0(terms.sub(
                m, (1 << (8 * n)) - 1)), True)
        out = []
        for i in range(n):
            x = int_op(vm, st, "&", int_op(vm, st, ">>", m, 8 * i), 0xff)
            out.append(mkA("int", x))
        if order == "big":
            out.reverse()
        if all(isinstance(x, int) for x in out):
            return bytes(out)
        return st.new(HList(out))

    @meth("float", "is_integer")
    def f_isint(vm, st, a, kw):
        m = num_of(vm, st, a[0])[1]
        if not isinstance(m, T):
            return m.is_integer()
        return A("bool", terms.mk("is_integer", (m,), "bool"))

    # strings
    def host_str_method(name):
        def f(vm, st, a, kw):
            s = const_str(st, a[0])
            args = [const_str(st, x) for x in a[1:]]
            if isinstance(s, (str, bytes)) and all(
                    isinstance(x, (str, int, bytes, type(None), tuple))
                    for x in args) and all(isinstance(x, (
                        str, int, bool)) for x in kw.values()):
                try:
                    r = getattr(s, name)(*args, **kw)
                except (ValueError, UnicodeError, TypeError) as e:
                    raise vm.exc(st, type(e).__name__ if type(
                        e).__name__ in vm.classes else "ValueError", str(e))
                if isinstance(r, list):
                    return st.new(HList(r))
                return r
            return sym_str_method(vm, st, name, s, args, kw)
        return f
    for n in ("split", "rsplit", "splitlines", "strip", "lstrip", "rstrip",
              "lower", "upper", "startswith", "endswith", "replace", "find",
              "rfind", "index", "rindex", "partition", "rpartition",
              "isdigit", "isalpha", "isspace", "isalnum", "title",
              "capitalize", "zfill", "ljust", "rjust", "center", "encode",
              "decode", "count", "removeprefix", "removesuffix", "isupper",
              "islower", "swapcase", "expandtabs"):
        M["str"][n] = NF(n, host_str_method(n))
        M["bytes"][n] = NF(n, host_str_method(n))
    M["str"]["format"] = NF("format", lambda vm, st, a, kw: dot_format(
        vm, st, const_str(st, a[0]), a[1:], kw))

    @meth("bytes", "join")
    def b_join(vm, st, a, kw):
        xs = vm.concrete_items(st, a[1])
        if xs is not None and isinstance(a[0], bytes):
            xs = [bytes(vm.concrete_items(st, x)) if isinstance(x, Ref)
                  else x for x in xs]
            if all(isinstance(x, bytes) for x in xs):
                return a[0].join(xs)
        raise Unmodelled("bytes.join")

    @meth("str", "join")
    def s_join(vm, st, a, kw):
        sep = const_str(st, a[0])
        v = a[1]
        if isinstance(v, Ref) and isinstance(st.get(v), HList) and \
                isinstance(st.get(v).abs, SegList):
            o = st.get(v).abs
            if sep != o.sep and any(o.multi):
                return A("str", terms.mk("rejoin", (
                    _freeze(sep), _freeze(o.segs), o.sep), "str"))
            ps = []
            for i, s in enumerate(o.segs):
                if i:
                    ps.append(sep)
                ps.extend(s)
            return str_mk(ps)
        items = concrete_items(st, v, consume=True)
        if items is None:
            return TailCall(vm.prelude(st, "_join"), (a[0], v))
        ps = []
        for i, s in enumerate(items):
            if i:
                ps.append(a[0])
            if isinstance(s, Choice):
                if all(isinstance(x, str) for _, x in s.options):
                    s = A("str", terms.mk("pick", (
                        _freeze(s.key), Opts(s.options)), "str"))
                else:
                    raise Unmodelled("join of a choice")
            if not isstr(s):
                raise vm.exc(st, "TypeError",
                             "sequence item: expected str instance")
            ps.append(s)
        return strcat(st, ps)

    def sym_str_method(vm, st, name, s, args, kw):
        fz = tuple(_freeze(x) for x in args)
        if name in ("split", "rsplit"):
            sep = args[0] if args else kw.get("sep")
            mx = args[1] if len(args) > 1 else kw.get("maxsplit", -1)
            if isinstance(sep, str) and len(sep) == 1:
                r = split_sym(vm, st, s, sep, mx, name == "rsplit")
                if r is not None:
                    return r
                # unknown number of pieces
                if st.choose((True, False)):
                    return st.new(HList([s]))
                ps = [A("str", terms.mk("piece", (s.m, sep, name, mx, i),
                                        "str")) for i in range(2)]
                if mx == 1:
                    return st.new(HList(ps))
            e = terms.mk("piece", (s.m, _freeze(sep)), "str")
            return st.new(HList(None, AbsList(
                A("str", e), (), st.sym("npieces", 1, INF))))
        if name in ("rpartition", "partition"):
            r = split_sym(vm, st, s, args[0], 1, name == "rpartition")
            if r is not None and st.get(r).abs is None:
                it = st.get(r).items
                if len(it) == 2:
                    return (it[0], args[0], it[1])
                if len(it) == 1:
                    return ("", "", it[0]) if name == "rpartition" else \
                        (it[0], "", "")
            return tuple(A("str", terms.mk(name, (s.m, fz, i), "str"))
                         for i in range(3))
        if name in ("startswith", "endswith"):
            p = str_parts(s)
            if p and isinstance(args[0], str):
                e = p[0] if name == "startswith" else p[-1]
                if isinstance(e, str):
                    if getattr(e, name)(args[0]):
                        return True
                    n = min(len(e), len(args[0]))
                    if (name == "startswith" and e[:n] != args[0][:n]) or \
                            (name == "endswith" and e[-n:] != args[0][-n:]):
                        return False
            return A("bool", terms.mk(name, (_freeze(s), fz), "bool"))
        if name in ("isdigit", "isalpha", "isspace", "isalnum", "isupper",
                    "islower"):
            return A("bool", terms.mk(name, (_freeze(s),), "bool"))
        if name in ("rfind", "find"):
            if isinstance(args[0], str) and len(args[0]) == 1 and all(
                    lacks(vm, p, args[0]) for p in str_parts(s)):
                return -1
        if name in ("find", "rfind", "index", "rindex", "count"):
            t = terms.mk(name, (_freeze(s), fz), "int")
            st.facts.iv.setdefault(t, (-1 if name.endswith("find") else 0,
                                       INF, 1, 0))
            return A("int", t)
        if name == "splitlines":
            e = terms.sym("line", "str")
            return st.new(HList(None, AbsList(A("str", e), (
                (e, (-INF, INF, 1, 0)),), st.sym("nlines", 0, INF))))
        ty = {"encode": "bytes", "decode": "str"}.get(
            name, s.ty if isinstance(s, A) else "str")
        return A(ty, terms.mk("s_" + name, (_freeze(s), fz), "str"))

    def want_mod(st, x, m):
        """record that residues modulo m matter for the atoms of x"""
        if m > 4096 or not vm.residues:
            return
        lo, hi = st.facts.rng(x)
        if lo >= 0 and hi < m:
            return
        c, d = terms.parts(x)
        for a, n in d.items():
            k = vm.tags.get(a)
            if k is not None and n % m and vm.moduli.get(k, 1) % m:
                from .state import NeedModulus
                raise NeedModulus(k, m)
    vm.want_mod = want_mod


class Opts:
    def __init__(self, o):
        self.o = o

    def __eq__(self, x):
        return isinstance(x, Opts) and self.o == x.o

    def __hash__(self):
        return hash(len(self.o))


import operator as _op
_HOSTCMP = {"<": _op.lt, "<=": _op.le, "==": _op.eq, "!=": _op.ne,
            ">": _op.gt, ">=": _op.ge}
