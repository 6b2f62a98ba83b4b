"""Models of Python's built-in functions, types and core library pieces."""

import types

from sa.report import AnalysisError
from . import terms
from .terms import T, Infeasible
from .state import (A, Ref, NF, BM, Choice, ARange, Table, HList, HDict, HSet,
                    HInst, HClass, HModule, HFunc, HCell, HGen, HIter, HBox,
                    HStore, HArr, CodeInfo, Frame, State, PyRaise)
from .interp import (NULL, TailCall, PUSHED, Unmodelled, mkA, SuperV, _chain)

INF = terms.INF

EXC = {
    "BaseException": "object", "Exception": "BaseException",
    "SystemExit": "BaseException", "KeyboardInterrupt": "BaseException",
    "GeneratorExit": "BaseException",
    "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "OverflowError": "ArithmeticError",
    "FloatingPointError": "ArithmeticError",
    "AssertionError": "Exception", "AttributeError": "Exception",
    "LookupError": "Exception", "KeyError": "LookupError",
    "IndexError": "LookupError", "NameError": "Exception",
    "UnboundLocalError": "NameError", "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError", "OSError": "Exception",
    "FileNotFoundError": "OSError", "FileExistsError": "OSError",
    "PermissionError": "OSError", "BrokenPipeError": "OSError",
    "ConnectionError": "OSError", "TimeoutError": "OSError",
    "IsADirectoryError": "OSError",
    "RuntimeError": "Exception", "NotImplementedError": "RuntimeError",
    "RecursionError": "RuntimeError", "StopIteration": "Exception",
    "TypeError": "Exception", "ValueError": "Exception",
    "UnicodeDecodeError": "ValueError", "EOFError": "Exception",
    "MemoryError": "Exception", "Warning": "Exception",
    "DeprecationWarning": "Warning", "UserWarning": "Warning",
}

TYPES = ["object", "type", "int", "float", "str", "bytes", "bool", "tuple",
         "list", "dict", "set", "frozenset", "bytearray", "function",
         "module", "generator", "iterator", "NoneType", "range", "slice",
         "cell", "property", "staticmethod", "classmethod", "super",
         "complex", "memoryview", "ellipsis"]

NPTYPES = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32",
           "int64", "float32", "float64", "bool_"]

PRELUDE = '''
def enumerate(it, start=0):
    i = start
    for x in it:
        yield i, x
        i += 1

def zip(*its):
    its = [iter(i) for i in its]
    while True:
        row = []
        for i in its:
            try:
                row.append(next(i))
            except StopIteration:
                return
        yield tuple(row)

def map(f, *its):
    if len(its) == 1:
        for x in its[0]:
            yield f(x)
    else:
        for row in zip(*its):
            yield f(*row)

def reversed(it):
    if isinstance(it, dict):
        it = _list(it)
    i = len(it) - 1
    while i >= 0:
        yield it[i]
        i -= 1

def filter(f, it):
    for x in it:
        if f is None:
            if x:
                yield x
        elif f(x):
            yield x

def _list(it):
    r = []
    for x in it:
        r.append(x)
    return r

def _tuple(it):
    r = []
    for x in it:
        r.append(x)
    return tuple(r)

def _bytes(it):
    r = []
    for x in it:
        r.append(x)
    return bytes(r)

def _bytearray(it):
    r = []
    for x in it:
        r.append(x)
    return bytearray(r)

def _set(it):
    r = set()
    for x in it:
        r.add(x)
    return r

def _dict(it):
    r = {}
    for k, v in it:
        r[k] = v
    return r

def _extend(lst, it):
    for x in it:
        lst.append(x)

def _iextend(lst, it):
    for x in it:
        lst.append(x)
    return lst

def any(it):
    for x in it:
        if x:
            return True
    return False

def all(it):
    for x in it:
        if not x:
            return False
    return True

def sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r

def _min(it, key, default, has_default, sign):
    first = True
    for x in it:
        k = x if key is None else key(x)
        if first:
            best, bk, first = x, k, False
        elif (k < bk if sign < 0 else k > bk):
            best, bk = x, k
    if first:
        if has_default:
            return default
        raise ValueError("empty sequence")
    return best

def _unpack(v, n):
    it = iter(v)
    r = []
    for i in range(n):
        try:
            r.append(next(it))
        except StopIteration:
            raise ValueError("not enough values to unpack")
    try:
        next(it)
    except StopIteration:
        return tuple(r)
    raise ValueError("too many values to unpack")

def _join(sep, it):
    r = None
    for x in it:
        r = x if r is None else r + sep + x
    return "" if r is None else r

def sorted(it, key=None, reverse=False):
    r = list(it)
    r.sort(key=key, reverse=reverse)
    return r

def _dict_fromkeys(cls, it, value=None):
    r = cls()
    for k in it:
        r[k] = value
    return r

def _int_from_bytes(cls, b, byteorder="big", *, signed=False):
    r = 0
    n = 0
    if byteorder == "little":
        b = list(b)[::-1]
    for x in b:
        r = r * 256 + x
        n += 8
    if signed and n and r >= 1 << (n - 1):
        r -= 1 << n
    return r

def _isort(lst, ks, reverse):
    # keys whose order is decided pair by pair
    for i in range(1, len(ks)):
        j = i
        while j > 0 and (ks[j - 1] < ks[j] if reverse else
                         ks[j] < ks[j - 1]):
            ks[j - 1], ks[j] = ks[j], ks[j - 1]
            lst[j - 1], lst[j] = lst[j], lst[j - 1]
            j -= 1

def _sortkeys(lst, key, reverse):
    ks = [key(x) for x in lst]
    _sort2(lst, ks, reverse)

def reduce(f, it, *init):
    it = iter(it)
    if init:
        r = init[0]
    else:
        r = next(it)
    for x in it:
        r = f(r, x)
    return r

def _chain(*its):
    for i in its:
        for x in i:
            yield x

def _chain1(its):
    for i in its:
        for x in i:
            yield x

def _islice(it, *a):
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop, step = a[0] or 0, a[1], 1
    else:
        start, stop, step = a[0] or 0, a[1], a[2] or 1
    i = 0
    nxt = start
    if stop is not None and nxt >= stop:
        return
    for x in it:
        if i == nxt:
            yield x
            nxt += step
            if stop is not None and nxt >= stop:
                return
        i += 1

def _count(start=0, step=1):
    while True:
        yield start
        start += step

def _repeat(x, n=None):
    if n is None:
        while True:
            yield x
    for _ in range(n):
        yield x

def _cycle(it):
    saved = list(it)
    while True:
        for x in saved:
            yield x

def _takewhile(p, it):
    for x in it:
        if not p(x):
            return
        yield x

def _product(*its, repeat=1):
    pools = [tuple(i) for i in its] * repeat
    res = [()]
    for pool in pools:
        res = [x + (y,) for x in res for y in pool]
    for r in res:
        yield r

def _slice_indices(sl, n):
    step = 1 if sl.step is None else sl.step
    if step == 0:
        raise ValueError("slice step cannot be zero")
    a, b = sl.start, sl.stop
    lo = 0 if step > 0 else -1
    hi = n if step > 0 else n - 1
    if a is None:
        a = lo if step > 0 else hi
    elif a < 0:
        a += n
        if a < lo:
            a = lo
    elif a > hi:
        a = hi
    if b is None:
        b = hi if step > 0 else lo
    elif b < 0:
        b += n
        if b < lo:
            b = lo
    elif b > hi:
        b = hi
    return a, b, step
def _iter_sentinel(f, s):
    while True:
        x = f()
        if x == s:
            return
        yield x

def _iter_class(o):
    while True:
        try:
            x = o.__next__()
        except StopIteration:
            return
        yield x

def _iter_getitem(o):
    i = 0
    while True:
        try:
            x = o[i]
        except IndexError:
            return
        yield x
        i += 1

def _contains(it, v):
    for x in it:
        if x is v or x == v:
            return True
    return False

def _ctx_enter(g):
    return next(g)

class _CM:
    def __init__(self, gen):
        self.gen = gen
    def __enter__(self):
        return next(self.gen)
    def __exit__(self, t, v, tb):
        if t is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            raise RuntimeError("generator did not stop")
        return __throw_into__(self.gen, v)
'''


def num_of(vm, st, v):
    """(ty, m) of a numeric value or None"""
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, int):
        return ("int", v)
    if isinstance(v, float):
        return ("float", v)
    if isinstance(v, A):
        if v.ty in ("int", "float", "bool") or v.ty in NPTYPES:
            return (v.ty, v.m)
        return None
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, HInst):
            if isinstance(o.cls, Ref) and st.get(o.cls).meta.get("intenum"):
                return num_of(vm, st, o.attrs["value"])
    return None


def b2i(m):
    """bool term as an int term"""
    if isinstance(m, T) and m.sort == "bool":
        t = terms.mk("b2i", (m,), "int")
        return t
    return int(m) if isinstance(m, bool) else m


def mkbool(m):
    return A("bool", m) if isinstance(m, T) else bool(m)


# --------------------------------------------------------- integer algebra

def runs(mask):
    out = []
    i = 0
    while mask >> i:
        if mask >> i & 1:
            j = i
            while mask >> j & 1:
                j += 1
            out.append((i, j - i))
            i = j
        else:
            i += 1
    return out


def i_and(st, x, y):
    if not isinstance(x, T):
        x, y = y, x
    if not isinstance(x, T):
        return x & y
    if not isinstance(y, T):
        if y < 0:
            return terms.sub(x, i_and(st, x, ~y))
        lo, hi = st.facts.rng(x)
        if lo >= 0 and hi < INF:
            y &= (1 << int(hi).bit_length()) - 1
        r = 0
        for s, n in runs(y):
            r = terms.add(r, terms.scale(
                terms.t_mod(terms.t_fdiv(x, 1 << s), 1 << n), 1 << s))
        return simp(st, r)
    lo, hi = st.facts.rng(x)
    l2, h2 = st.facts.rng(y)
    if lo >= 0 and l2 >= 0:
        if hi <= 1 and st.facts.const(x) is None and h2 <= 1:
            return terms.t_and(x, y)
    c = st.facts.const(x)
    if c is not None:
        return i_and(st, y, c)
    c = st.facts.const(y)
    if c is not None:
        return i_and(st, x, c)
    return terms.t_and(x, y)


def simp(st, t):
    """drop mod/fdiv made redundant by known ranges"""
    if not isinstance(t, T):
        return t
    c, d = terms.parts(t)
    if any(a.op in ("mod", "fdiv") for a in d):
        r = c
        for a, k in d.items():
            r = terms.add(r, simp1(st, a), k)
        t = r
    return t


def simp1(st, a):
    if a.op == "mod" and not isinstance(a.args[1], T) and a.args[1] > 0:
        x, m = a.args
        lo, hi = st.facts.rng(x)
        if lo >= 0 and hi < m:
            return simp(st, x)
        if lo > -INF and hi < INF and lo // m == hi // m:
            return simp(st, terms.add(x, -(lo // m) * m))
        # drop the parts of x that do not matter because of low bits
        c, d = terms.parts(x)
        cg, r = st.facts.cong(x)
        if cg and cg % m == 0:
            return r % m
    if a.op == "fdiv" and not isinstance(a.args[1], T) and a.args[1] > 0:
        x, m = a.args
        lo, hi = st.facts.rng(x)
        if lo > -INF and hi < INF and lo // m == hi // m:
            return lo // m
        # x = m*q + r with 0 <= r < m
        c, d = terms.parts(x)
        q, rest = 0, c
        for at, k in d.items():
            if k % m == 0:
                q = terms.add(q, at, k // m)
            else:
                rest = terms.add(rest, at, k)
        # split bits below m
        lo, hi = st.facts.rng(rest)
        if lo >= 0 and hi < m:
            return q
        if len(d) > 1 and m & (m - 1) == 0:
            low = terms.parts(rest)[0] % m
            hi_part = terms.parts(rest)[0] - low
            for at, k in terms.parts(rest)[1].items():
                g, r = st.facts.cong(terms.scale(at, k))
                if g and g % m == 0 and r % m == 0:
                    hi_part = terms.add(hi_part, at, k)
                else:
                    low = terms.add(low, at, k)
            l, h = st.facts.rng(low)
            if l >= 0 and h < m and isinstance(hi_part, T):
                return terms.add(q, terms.t_fdiv(hi_part, m))
    return a


def i_or(st, x, y):
    if not isinstance(x, T):
        x, y = y, x
    if not isinstance(x, T):
        return x | y
    if not isinstance(y, T):
        return terms.add(terms.add(x, y), i_and(st, x, y), -1)
    if disjoint(st, x, y):
        return terms.add(x, y)
    return terms.t_or(x, y)


def i_xor(st, x, y):
    if not isinstance(x, T):
        x, y = y, x
    if not isinstance(x, T):
        return x ^ y
    if not isinstance(y, T):
        return terms.add(terms.add(x, y), i_and(st, x, y), -2)
    if x is y:
        return 0
    if disjoint(st, x, y):
        return terms.add(x, y)
    return terms.t_xor(x, y)


def disjoint(st, x, y):
    a, b = st.facts.bits(x), st.facts.bits(y)
    if a is None or b is None:
        return False
    return all(u == 0 or v == 0 for u, v in zip(a, b))


def i_shl(st, x, k):
    k = st.concretize(k) if isinstance(k, T) else k
    if k is None:
        raise Unmodelled("shift by an unbounded amount")
    if k < 0:
        raise Unmodelled("negative shift")
    return terms.scale(x, 1 << int(k))


def i_shr(st, x, k):
    k = st.concretize(k) if isinstance(k, T) else k
    if k is None:
        raise Unmodelled("shift by an unbounded amount")
    if k < 0:
        raise Unmodelled("negative shift")
    if not isinstance(x, T):
        return x >> k
    return simp(st, terms.t_fdiv(x, 1 << int(k)))


def i_mul(st, x, y):
    if isinstance(x, T) and isinstance(y, T):
        c = st.facts.const(x)
        if c is not None:
            return terms.t_mul(c, y)
        c = st.facts.const(y)
        if c is not None:
            return terms.t_mul(x, c)
    return terms.t_mul(x, y)


def i_mod(vm, st, x, y):
    if isinstance(y, T):
        c = st.facts.const(y)
        if c is not None:
            y = c
    if not isinstance(y, T):
        if y == 0:
            raise vm.exc(st, "ZeroDivisionError", "modulo by zero")
        if y < 0 and isinstance(x, T):
            # python: -(-x mod -y)
            return terms.scale(i_mod(vm, st, terms.scale(x, -1), -y), -1)
        if isinstance(x, T):
            m, r = st.facts.cong(x)
            if m == 0 or (m and m % y == 0):
                return r % y
            vm.want_mod(st, x, y)
            return simp(st, terms.t_mod(x, y))
        return x % y
    if st.decide(terms.t_eq0(y)):
        raise vm.exc(st, "ZeroDivisionError", "modulo by zero")
    return terms.t_mod(x, y)


def i_fdiv(vm, st, x, y):
    if isinstance(y, T):
        c = st.facts.const(y)
        if c is not None:
            y = c
    if not isinstance(y, T):
        if y == 0:
            raise vm.exc(st, "ZeroDivisionError", "division by zero")
        if y < 0:
            return i_fdiv(vm, st, terms.scale(x, -1), -y)
        return simp(st, terms.t_fdiv(x, y))
    if st.decide(terms.t_eq0(y)):
        raise vm.exc(st, "ZeroDivisionError", "division by zero")
    return terms.t_fdiv(x, y)


def i_pow(vm, st, x, y):
    if not isinstance(x, T) and not isinstance(y, T):
        return x ** y
    y = st.concretize(y) if isinstance(y, T) else y
    if y is None:
        raise Unmodelled("symbolic exponent")
    if not isinstance(x, T):
        return x ** y
    if y < 0 or y > 64:
        raise Unmodelled("power")
    r = 1
    for _ in range(int(y)):
        r = i_mul(st, r, x)
    return r


def int_op(vm, st, op, x, y):
    """exact integer arithmetic"""
    f = st.facts
    x, y = f.n(x), f.n(y)
    if isinstance(x, T) and x.sort == "bool":
        x = b2i(x)
    if isinstance(y, T) and y.sort == "bool":
        y = b2i(y)
    if op == "+":
        return terms.add(x, y)
    if op == "-":
        return terms.sub(x, y)
    if op == "*":
        return i_mul(st, x, y)
    if op == "&":
        return i_and(st, x, y)
    if op == "|":
        return i_or(st, x, y)
    if op == "^":
        return i_xor(st, x, y)
    if op == "<<":
        return i_shl(st, x, y)
    if op == ">>":
        return i_shr(st, x, y)
    if op == "%":
        return i_mod(vm, st, x, y)
    if op == "//":
        return i_fdiv(vm, st, x, y)
    if op == "**":
        return i_pow(vm, st, x, y)
    raise Unmodelled("integer %s" % op)


def float_op(vm, st, op, x, y):
    x, y = st.facts.n(x), st.facts.n(y)
    if isinstance(x, T) and x.sort == "bool":
        x = b2i(x)
    if isinstance(y, T) and y.sort == "bool":
        y = b2i(y)
    if op == "+":
        return terms.f_add(x, y)
    if op == "-":
        return terms.f_add(x, y, -1)
    if op == "*":
        return terms.f_mul(x, y)
    if op == "/":
        return terms.f_mul(x, y, -1)
    if not isinstance(x, T) and not isinstance(y, T):
        if op == "//":
            return float(x) // float(y)
        if op == "%":
            return float(x) % float(y)
        if op == "**":
            return float(x) ** float(y)
    if op in ("//", "%", "**"):
        return terms.mk("f" + op, (terms.to_f(x), terms.to_f(y)), "float")
    raise Unmodelled("float %s" % op)


def is_float(ty):
    return ty.startswith("float")


# ----------------------------------------------------------------- install

def install(vm):
    boot = State({})
    vm.boot = boot
    cl = vm.classes

    def defcls(name, base="object", attrs=None, meta=None):
        if name == "object":
            r = boot.new(HClass(name, (), (), {}, "builtins"))
            boot.heap[r.id].mro = (r,)
        else:
            b = cl[base] if isinstance(base, str) else base
            r = boot.new(HClass(name, (b,), (), attrs or {}, "builtins",
                                meta))
            boot.heap[r.id].mro = (r,) + boot.get(b).mro
        cl[name] = r
        return r
    vm.defcls = defcls

    for t in TYPES:
        if t not in cl:
            defcls(t, "int" if t == "bool" else "object")
    for e, b in EXC.items():
        defcls(e, b)
    cl["IOError"] = cl["EnvironmentError"] = cl["OSError"]
    defcls("generic_np")
    for t in NPTYPES:
        defcls(t, "generic_np")
    defcls("ndarray")
    defcls("Enum")
    vm.nkey = nkey_m(vm)

    B = vm.builtins

    def nf(name, bind=True):
        def d(fn):
            B[name] = NF(name, fn, bind)
            return fn
        return d

    # exceptions' constructor
    def exc_init(vm, st, args, kw):
        st.mut(args[0]).attrs["args"] = tuple(args[1:])
        return None
    boot.get(cl["BaseException"]).attrs["__init__"] = NF("__init__", exc_init)
    boot.get(cl["BaseException"]).attrs["with_traceback"] = NF(
        "with_traceback", lambda vm, st, a, k: a[0])
    boot.get(cl["object"]).attrs["__init__"] = NF(
        "__init__", lambda vm, st, a, k: None)

    install_prelude(vm)
    install_functions(vm, nf)
    install_types(vm, nf)
    from . import containers
    containers.install(vm)


def nkey_m(vm):
    def nkey(st, v):
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return v
        if isinstance(v, tuple):
            return tuple(nkey(st, x) for x in v)
        if isinstance(v, A):
            m = st.facts.n(v.m) if isinstance(v.m, T) else v.m
            if isinstance(m, T):
                c = st.facts.const(m) if m.sort == "int" else None
                return c if c is not None else m
            return m
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, (HList, HDict, HSet, HArr)):
                raise vm.exc(st, "TypeError", "unhashable type")
            if isinstance(o, HInst):
                n = num_of(vm, st, v)
                if n is not None:
                    return n[1]
                if isinstance(o.cls, Ref):
                    e = vm.find(st, o.cls, "__eq__")
                    if e is not NULL and not isinstance(e, NF):
                        h = vm.find(st, o.cls, "__hash__")
                        raise Unmodelled("user-defined hash key")
            return v
        if isinstance(v, (NF, BM, range, slice)):
            return v
        if isinstance(v, Choice):
            return ("choice", v)
        raise Unmodelled("dictionary key %r" % (v,))
    return nkey


def symbolic_key(k):
    if isinstance(k, T):
        return True
    if isinstance(k, tuple):
        return any(symbolic_key(x) for x in k)
    return False


def install_prelude(vm):
    code = compile(PRELUDE, "<prelude>", "exec", dont_inherit=True)
    vm._prelude_code = code

    def prelude(st, name):
        m = st.get(st.roots["prelude"])
        return m.attrs[name]
    vm.prelude = prelude


def boot_prelude(vm, st):
    m = st.new(HModule("<prelude>", {"__name__": "<prelude>"}))
    st.roots["prelude"] = m
    f = Frame(CodeInfo.get(vm._prelude_code), m, {}, ns=m)
    st.frames.append(f)
    k, s = vm.run(st)
    assert k == "done", k
    st.result = None


def const_str(st, v):
    if isinstance(v, A) and v.ty == "str" and not isinstance(v.m, T):
        return v.m
    return v


def isstr(v):
    return isinstance(v, str) or (isinstance(v, A) and v.ty == "str")


# strings: a symbolic string is A("str", T) where T is an atom (sort str) or
# a 'cat' of atoms and constants

def str_parts(v):
    if isinstance(v, str):
        return (v,) if v else ()
    m = v.m if isinstance(v, A) else v
    if isinstance(m, str):
        return (m,) if m else ()
    if m.op == "cat":
        return m.args
    return (m,)


def str_mk(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    if not out:
        return ""
    if len(out) == 1:
        return out[0] if isinstance(out[0], str) else A("str", out[0])
    return A("str", terms.mk("cat", tuple(out), "str"))


def strcat(st, vals):
    p = []
    for v in vals:
        p.extend(str_parts(v))
    return str_mk(p)


def to_str(vm, st, v, repr_=False):
    """value of str(v)/repr(v); may return a TailCall for Python __str__"""
    if isstr(v):
        if not repr_:
            return v
        if isinstance(v, str):
            return repr(v)
        return A("str", terms.mk("repr", (v.m,), "str"))
    if v is None or isinstance(v, (bool, int, float, bytes)):
        return repr(v)
    if isinstance(v, A):
        m = st.facts.n(v.m) if isinstance(v.m, T) else v.m
        if not isinstance(m, T):
            return str(m)
        c = st.facts.const(m) if m.sort == "int" else None
        if c is not None:
            return str(c)
        return A("str", terms.mk("str_" + m.sort, (m,), "str"))
    if isinstance(v, tuple):
        ps = [to_str(vm, st, x, True) for x in v]
        if all(isinstance(p, str) for p in ps):
            return "(" + ", ".join(ps) + ("," if len(ps) == 1 else "") + ")"
        return A("str", terms.mk("str_obj", (_freeze(ps),), "str"))
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, HInst):
            if isinstance(o.cls, Ref):
                for n in (("__repr__",) if repr_ else
                          ("__str__", "__repr__")):
                    f = vm.find(st, o.cls, n)
                    if f is not NULL:
                        if isinstance(f, NF):
                            return f.fn(vm, st, (v,), {})
                        return TailCall(f, (v,))
                c = st.get(o.cls)
                if "__members__" in c.meta:
                    return "%s.%s" % (c.name, o.attrs.get("name"))
            return "<%s object>" % vm.describe(st, v)
        if isinstance(o, HClass):
            return "<class '%s'>" % o.name
        if isinstance(o, HList) and o.abs is None:
            ps = [to_str(vm, st, x, True) for x in o.items]
            if all(isinstance(p, str) for p in ps):
                return "[" + ", ".join(ps) + "]"
        return A("str", terms.mk("str_ref", (v.id,), "str"))
    return A("str", terms.mk("str_obj", (repr(v),), "str"))


def _freeze(x):
    if isinstance(x, (list, tuple)):
        return tuple(_freeze(y) for y in x)
    if isinstance(x, A):
        return x.m
    return x if isinstance(x, (str, int, T)) else repr(x)


def fmt_spec(vm, st, spec, v):
    """one printf-style conversion; returns a str value"""
    conv = spec[-1]
    if conv in "sr":
        s = to_str(vm, st, v, conv == "r")
        if isinstance(s, TailCall):
            # the text is irrelevant to every analysis
            return A("str", terms.mk("str_obj", (repr(v),), "str"))
        if isinstance(s, str):
            return spec % s if conv == "s" else (spec[:-1] + "s") % s
        if spec not in ("%s", "%r"):
            return A("str", terms.mk("fmt", (spec, s.m), "str"))
        return s
    n = num_of(vm, st, v)
    if n is None:
        if conv == "c" and isstr(v):
            return v
        if isinstance(v, (Ref, tuple)) or v is None or isstr(v):
            raise vm.exc(st, "TypeError", "%%%s format: a number is required"
                         % conv)
        raise Unmodelled("format of %r" % (v,))
    m = n[1]
    if isinstance(m, T):
        m = st.facts.n(m)
        if isinstance(m, T) and m.sort == "int":
            c = st.facts.const(m)
            m = m if c is None else c
    if not isinstance(m, T):
        if conv in "dxXoc" and isinstance(m, float):
            m = int(m)
        try:
            return spec % m
        except (ValueError, OverflowError, TypeError) as e:
            raise vm.exc(st, type(e).__name__, str(e))
    return A("str", terms.mk("fmt", (spec, m), "str"))


import re
_FMT = re.compile(r"%(?:\((\w+)\))?([-+ #0]*)(\d+|\*)?(?:\.(\d+))?"
                  r"([diouxXeEfFgGcrsa%])")


def percent(vm, st, fmt, arg):
    if not isinstance(fmt, str):
        # symbolic format strings are opaque
        return A("str", terms.mk("fmt", (_freeze(fmt), _freeze(
            [num_of(vm, st, a)[1] if num_of(vm, st, a) else repr(a)
             for a in (arg if isinstance(arg, tuple) else (arg,))])), "str"))
    out = []
    pos = 0
    args = arg if isinstance(arg, tuple) else (arg,)
    i = 0
    for m in _FMT.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(5) == "%":
            out.append("%")
            continue
        if m.group(1):
            d = st.get(arg).d
            if m.group(1) not in d:
                raise vm.exc(st, "KeyError", m.group(1))
            v = d[m.group(1)][1]
            spec = m.group(0).replace("(%s)" % m.group(1), "")
        else:
            if i >= len(args):
                raise vm.exc(st, "TypeError",
                             "not enough arguments for format string")
            v = args[i]
            i += 1
            spec = m.group(0)
        out.append(fmt_spec(vm, st, spec, v))
    out.append(fmt[pos:])
    if i < len(args) and not (len(args) == 1 and isinstance(arg, Ref)):
        raise vm.exc(st, "TypeError",
                     "not all arguments converted during string formatting")
    return strcat(st, out)


def fmt_format(vm, st, v, spec, repr_=False):
    spec = const_str(st, spec)
    if not isinstance(spec, str):
        raise Unmodelled("symbolic format specification")
    if spec == "":
        return to_str(vm, st, v, repr_)
    if isstr(v):
        if isinstance(v, str):
            return format(v, spec)
        return A("str", terms.mk("fmt", ("{:%s}" % spec, v.m), "str"))
    n = num_of(vm, st, v)
    if n is None:
        s = to_str(vm, st, v)
        if isinstance(s, str):
            return format(s, spec)
        return A("str", terms.mk("fmt", ("{:%s}" % spec, repr(v)), "str"))
    m = n[1]
    if isinstance(m, T):
        c = st.facts.const(m) if m.sort == "int" else None
        m = m if c is None else c
    if not isinstance(m, T):
        try:
            return format(m, spec)
        except ValueError as e:
            raise vm.exc(st, "ValueError", str(e))
    # canonical: the same text as the % form when it exists
    mm = re.fullmatch(r"0?(\d+)([dxXo])", spec)
    sp = "%" + spec if re.fullmatch(r"(0\d+|\d+)?[dxXo]", spec) else \
        "{:%s}" % spec
    return A("str", terms.mk("fmt", (sp, m), "str"))


def dot_format(vm, st, fmt, args, kw):
    import string
    if not isinstance(fmt, str):
        raise Unmodelled("symbolic format string")
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        head = re.split(r"[.\[]", field)[0]
        if head == "":
            v = args[auto]
            auto += 1
        elif head.isdigit():
            v = args[int(head)]
        else:
            v = kw[head]
        rest = field[len(head):]
        for acc in re.findall(r"\.(\w+)|\[(\w+)\]", rest):
            if acc[0]:
                v = vm.getattr(st, v, acc[0])
            else:
                k = int(acc[1]) if acc[1].isdigit() else acc[1]
                v = vm.getitem(st, v, k)
        if "{" in (spec or ""):
            raise Unmodelled("nested format specification")
        s = fmt_format(vm, st, v, spec or "", conv == "r")
        if isinstance(s, TailCall):
            s = A("str", terms.mk("str_obj", (repr(v),), "str"))
        out.append(s)
    return strcat(st, out)


# ---------------------------------------------------------------- functions

def install_functions(vm, nf):
    vm.strcat = strcat
    vm.format = lambda st, v, spec, repr_=False: fmt_format(
        vm, st, v, spec, repr_)

    def pyfun(name, pname=None):
        def fn(vm, st, args, kw):
            return TailCall(vm.prelude(st, pname or name), args, kw)
        vm.builtins[name] = NF(name, fn)

    for n in ("enumerate", "zip", "map", "filter", "any", "all",
              "reversed"):
        pyfun(n)

    @nf("sum")
    def _sum(vm, st, args, kw):
        if isinstance(args[0], Ref) and isinstance(st.get(args[0]), HArr):
            return vm.np.reduce(vm, st, "sum", args[0], {})
        return TailCall(vm.prelude(st, "sum"), args, kw)

    @nf("sorted")
    def _sorted(vm, st, args, kw):
        return TailCall(vm.prelude(st, "sorted"), args, kw)

    @nf("print")
    def _print(vm, st, args, kw):
        return None

    @nf("len")
    def _len(vm, st, args, kw):
        v = args[0]
        if isinstance(v, (tuple, str, bytes, range)):
            return len(v)
        if isinstance(v, ARange):
            n = terms.sub(v.hi, v.lo)
            if v.step != 1:
                n = i_fdiv(vm, st, terms.add(n, v.step - 1), v.step)
            if st.decide(terms.t_le0(n)):
                return 0
            return mkA("int", n)
        if isinstance(v, A) and v.ty in ("str", "bytes"):
            if not isinstance(v.m, T):
                return len(v.m)
            t = terms.mk("len", (v.m,), "int")
            if t not in st.facts.iv:
                st.facts.iv[t] = (0, INF, 1, 0)
            return mkA("int", t)
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, HList):
                if o.abs is not None:
                    return o.abs.length(vm, st)
                return len(o.items)
            if isinstance(o, (HDict, HSet)):
                return len(o.d)
            if isinstance(o, HArr):
                if not o.shape:
                    raise vm.exc(st, "TypeError", "len() of unsized object")
                return mkA("int", o.shape[0])
            if isinstance(o, HClass) and "__members__" in o.meta:
                return len(st.get(o.meta["__members__"]).d)
            if isinstance(o, HInst) or isinstance(o, HBox):
                f = vm.find(st, vm.class_of(st, v), "__len__")
                if f is not NULL:
                    return TailCall(f, (v,))
                m = getattr(o, "attrs", {}).get("__len__")
                if isinstance(m, NF):
                    return m.fn(vm, st, (), {})
        raise vm.exc(st, "TypeError", "object has no len()")

    @nf("iter")
    def _iter(vm, st, args, kw):
        if len(args) == 2:
            return TailCall(vm.prelude(st, "_iter_sentinel"), args)
        return vm.get_iter(st, args[0])

    @nf("next")
    def _next(vm, st, args, kw):
        it = args[0]
        default = args[1] if len(args) > 1 else NULL
        if isinstance(it, Ref):
            o = st.get(it)
            if isinstance(o, HGen):
                r = vm.resume_gen(st, it, None, ("next", default))
                if r == "done":
                    if default is not NULL:
                        return default
                    raise vm.exc(st, "StopIteration")
                return PUSHED
            if isinstance(o, HIter):
                r = vm.iter_next(st, it)
                if r is NULL:
                    if default is not NULL:
                        return default
                    raise vm.exc(st, "StopIteration")
                return r
            if isinstance(o, HInst):
                f = vm.find(st, o.cls, "__next__")
                if f is not NULL:
                    if default is not NULL:
                        raise Unmodelled("next() default on a class")
                    return TailCall(f, (it,))
        raise vm.exc(st, "TypeError", "not an iterator")

    @nf("isinstance")
    def _isinst(vm, st, args, kw):
        c = args[1]
        if isinstance(args[0], A) and args[0].ty in ("int", "bool") and \
                c == vm.classes["bool"]:
            return args[0].ty == "bool"
        if isinstance(c, tuple):
            return any(_isinst(vm, st, (args[0], x), {}) for x in c)
        if isinstance(c, NF):
            c = vm.classes.get(c.name, c)
        return vm.isinst(st, args[0], c)

    @nf("issubclass")
    def _issub(vm, st, args, kw):
        cs = args[1] if isinstance(args[1], tuple) else (args[1],)
        return any(vm.issub(st, args[0], c) for c in cs)

    @nf("hasattr")
    def _hasattr(vm, st, args, kw):
        return vm._getattr(st, args[0], args[1]) is not NULL

    @nf("getattr")
    def _getattr(vm, st, args, kw):
        if not isinstance(args[1], str):
            raise Unmodelled("getattr with a computed name")
        return vm.getattr(st, args[0], args[1],
                          args[2] if len(args) > 2 else NULL)

    @nf("setattr")
    def _setattr(vm, st, args, kw):
        if not isinstance(args[1], str):
            raise Unmodelled("setattr with a computed name")
        return vm.setattr(st, args[0], args[1], args[2])

    @nf("delattr")
    def _delattr(vm, st, args, kw):
        st.mut(args[0]).attrs.pop(args[1], None)

    @nf("callable")
    def _callable(vm, st, args, kw):
        v = args[0]
        if isinstance(v, (NF, BM)):
            return True
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, HInst):
                return vm.find(st, o.cls, "__call__") is not NULL
            return isinstance(o, (HFunc, HClass, HBox))
        return False

    @nf("id")
    def _id(vm, st, args, kw):
        v = args[0]
        return v.id if isinstance(v, Ref) else hash(repr(v)) & 0xffffff

    @nf("hash")
    def _hash(vm, st, args, kw):
        vm.check_hashable(st, args[0])
        return A("int", terms.mk("hash", (_freeze(args[0]),), "int"))

    @nf("repr")
    def _repr(vm, st, args, kw):
        return to_str(vm, st, args[0], True)

    @nf("format")
    def _format(vm, st, args, kw):
        return fmt_format(vm, st, args[0], args[1] if len(args) > 1 else "")

    @nf("chr")
    def _chr(vm, st, args, kw):
        m = num_of(vm, st, args[0])[1]
        if isinstance(m, T):
            return A("str", terms.mk("chr", (m,), "str"))
        return chr(m)

    @nf("ord")
    def _ord(vm, st, args, kw):
        if isinstance(args[0], str):
            return ord(args[0])
        return A("int", terms.mk("ord", (args[0].m,), "int"))

    def basefmt(name, spec):
        @nf(name)
        def f(vm, st, args, kw):
            m = num_of(vm, st, args[0])[1]
            c = st.facts.const(m) if isinstance(m, T) else m
            if c is None:
                return A("str", terms.mk("fmt", (name, m), "str"))
            return format(c, spec)
    basefmt("hex", "#x")
    basefmt("bin", "#b")
    basefmt("oct", "#o")

    @nf("divmod")
    def _divmod(vm, st, args, kw):
        return (vm.binop(st, "//", args[0], args[1]),
                vm.binop(st, "%", args[0], args[1]))

    @nf("pow")
    def _pow(vm, st, args, kw):
        r = vm.binop(st, "**", args[0], args[1])
        if len(args) > 2:
            r = vm.binop(st, "%", r, args[2])
        return r

    @nf("abs")
    def _abs(vm, st, args, kw):
        if isinstance(args[0], Ref) and isinstance(st.get(args[0]), HArr):
            return vm.np.unary(vm, st, "abs", args[0])
        ty, m = num_of(vm, st, args[0])
        if not isinstance(m, T):
            return mkA(ty, abs(m))
        if m.sort == "float":
            return A(ty, terms.mk("abs", (m,), "float"))
        lo, hi = st.facts.rng(m)
        if lo >= 0:
            return mkA(ty, m)
        if hi <= 0:
            return mkA(ty, terms.scale(m, -1))
        return mkA(ty, terms.mk("abs", (m,), "int"))

    @nf("round")
    def _round(vm, st, args, kw):
        ty, m = num_of(vm, st, args[0])
        if not isinstance(m, T):
            nd = args[1] if len(args) > 1 else None
            return round(m) if nd is None else round(m, nd)
        if m.sort == "int":
            return mkA(ty, m)
        return mkA("int", terms.t_round("rint", m))

    def minmax(name, sign):
        @nf(name)
        def f(vm, st, args, kw):
            key = kw.get("key")
            if len(args) == 1:
                items = vm.concrete_items(st, args[0])
            else:
                items = list(args)
            if items and key is None and all(
                    num_of(vm, st, x) is not None for x in items):
                best = items[0]
                for x in items[1:]:
                    best = two(vm, st, best, x)
                return best
            return TailCall(vm.prelude(st, "_min"), (
                args[0] if len(args) == 1 else tuple(args), key,
                kw.get("default"), "default" in kw, sign))

        def two(vm, st, a, b):
            (ta, ma), (tb, mb) = num_of(vm, st, a), num_of(vm, st, b)
            if is_float(ta) or is_float(tb):
                if not isinstance(ma, T) and not isinstance(mb, T):
                    return b if (mb < ma if sign < 0 else mb > ma) else a
                return A("float", terms.t_minmax(
                    name, terms.to_f(ma), terms.to_f(mb), "float"))
            d = terms.sub(mb, ma)  # b - a
            lt = terms.t_le0(terms.add(d, 1))
            if sign > 0:
                lt = terms.t_le0(terms.sub(1, d))
            k = st.facts.known(lt)
            if k is not None:
                return b if k else a
            return mkA(ta, terms.t_minmax(name, ma, mb, "int"))
    minmax("min", -1)
    minmax("max", 1)

    @nf("super")
    def _super(vm, st, args, kw):
        f = st.frames[-1]
        if args:
            c, o = args
        else:
            c = st.get(f.loc["__class__"]).v
            o = f.loc[f.ci.code.co_varnames[0]]
            if isinstance(o, Ref) and isinstance(st.get(o), HCell):
                o = st.get(o).v
        isclass = isinstance(o, Ref) and isinstance(st.get(o), HClass)
        return SuperV(c, o, isclass)

    @nf("__build_class__")
    def _bc(vm, st, args, kw):
        fn, name = args[0], args[1]
        bases = tuple(args[2:])
        o = st.get(fn)
        ns = st.new(HDict())
        f = Frame(o.code, o.globals, {}, ns=ns,
                  ret=("class", name, bases, kw))
        for n, c in zip(o.code.code.co_freevars, o.closure):
            f.loc[n] = c
        st.frames.append(f)
        return PUSHED

    @nf("vars")
    def _vars(vm, st, args, kw):
        return vm._getattr(st, args[0], "__dict__")

    @nf("globals")
    def _globals(vm, st, args, kw):
        raise Unmodelled("globals()")

    vm.finish_class = finish_class
    vm.enum_call = enum_call


def make_class(vm, st, name, bases, attrs, kw, module):
    bases = tuple(b for b in bases)
    bases = tuple(vm.classes.get(b.name, b) if isinstance(b, NF) else b
                  for b in bases)
    bases = tuple(b for b in bases if isinstance(b, Ref)
                  and isinstance(st.get(b), HClass))
    if not bases:
        bases = (vm.classes["object"],)
    c = st.new(HClass(name, bases, (), attrs, module))
    mros = [list(st.get(b).mro) for b in bases] + [list(bases)]
    mro = [c]
    while any(mros):
        mros = [m for m in mros if m]
        for m in mros:
            h = m[0]
            if not any(h in x[1:] for x in mros):
                break
        else:
            raise vm.exc(st, "TypeError", "inconsistent resolution order")
        mro.append(h)
        for x in mros:
            if x and x[0] == h:
                x.pop(0)
    o = st.mut(c)
    o.mro = tuple(mro)
    for b in bases:
        for k in ("intenum", "flag"):
            if st.get(b).meta.get(k):
                o.meta[k] = True
    if vm.classes["Enum"] in mro:
        make_enum(vm, st, c)
    for k, v in list(attrs.items()):
        if isinstance(v, Ref) and isinstance(st.get(v), HInst):
            sn = vm.find(st, st.get(v).cls, "__set_name__")
            if sn is not NULL:
                raise Unmodelled("__set_name__")
    return c


def make_enum(vm, st, c):
    o = st.mut(c)
    members = {}
    n = 0
    for b in o.mro[1:]:
        if "__members__" in st.get(b).meta and st.get(
                st.get(b).meta["__members__"]).d:
            raise vm.exc(st, "TypeError", "cannot extend enumeration")
    for k, v in list(o.attrs.items()):
        if k.startswith("__") and k.endswith("__") or k in (
                "_ignore_", "_order_"):
            continue
        if isinstance(v, (NF, BM)):
            continue
        if isinstance(v, Ref) and isinstance(st.get(v), (HFunc, HBox)):
            continue
        if isinstance(v, Ref) and isinstance(st.get(v), HInst) and \
                st.get(v).attrs.get("__auto__"):
            v = n + 1 if not o.meta.get("flag") else 1 << n
        n += 1
        dup = None
        for k2, (_, m2) in members.items():
            if vm.const_eq(st, st.get(m2).attrs["value"], v):
                dup = m2
        if dup is None:
            dup = st.new(HInst(c, {"name": k, "value": v, "_name_": k,
                                   "_value_": v}))
        members[k] = (k, dup)
        o.attrs[k] = dup
    o.meta["__members__"] = st.new(HDict(members))
    o.meta["enum_ready"] = bool(members)


def finish_class(vm, st, f, ret):
    _, name, bases, kw = ret
    ns = st.get(f.ns)
    attrs = {k: v for k, v in ns.d.values()}
    mod = attrs.pop("__module__", "?")
    attrs.pop("__qualname__", None)
    cell = attrs.pop("__classcell__", None)
    kw = dict(kw)
    kw.pop("metaclass", None)
    c = make_class(vm, st, name, bases, attrs, kw, mod)
    if isinstance(cell, Ref):
        st.mut(cell).v = c
    return c


def enum_members(vm, st, c):
    d = st.get(st.get(c).meta["__members__"]).d
    seen, out = set(), []
    for k, m in d.values():
        if m not in seen:
            seen.add(m)
            out.append(m)
    return out


def enum_call(vm, st, c, args, kw):
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.get(v), HInst) and \
            st.get(v).cls == c:
        return v
    ms = enum_members(vm, st, c)
    if isinstance(v, A) and isinstance(v.m, T) and v.m.sort == "int":
        opts = []
        for m in ms:
            val = st.get(m).attrs["value"]
            n = num_of(vm, st, val)
            if n is None:
                continue
            if st.facts.known(terms.t_eq0(terms.sub(v.m, n[1]))) is not False:
                opts.append((n[1], m))
        lo, hi = st.facts.rng(v.m)
        if hi - lo < 4096:
            mod, r = st.facts.cong(v.m)
            pts = {p for p in range(int(lo), int(hi) + 1)
                   if mod <= 1 or p % mod == r % mod}
            if pts <= {k for k, _ in opts}:
                if len(opts) == 1:
                    return opts[0][1]
                return vm.merge_choice(st, (v.m,), tuple(
                    ((k,), m) for k, m in opts))
        bad = "no member"
        i = st.choose(tuple(range(len(opts) + 1)))
        if i == len(opts):
            raise vm.exc(st, "ValueError", "not a valid enumeration value")
        st.facts.assume(terms.t_eq0(terms.sub(v.m, opts[i][0])), True)
        return opts[i][1]
    for m in ms:
        if vm.const_eq(st, st.get(m).attrs["value"], v):
            return m
    if st.get(c).meta.get("flag"):
        n = num_of(vm, st, v)
        if n is not None:
            return st.new(HInst(c, {"name": None, "value": v}))
    if isinstance(v, A) and isinstance(v.m, T):
        # opaque value (e.g. symbolic string)
        i = st.choose(tuple(range(len(ms) + 1)))
        if i == len(ms):
            raise vm.exc(st, "ValueError", "not a valid enumeration value")
        return ms[i]
    raise vm.exc(st, "ValueError", "%r is not a valid %s" % (
        v, st.get(c).name))


# -------------------------------------------------------------------- types

def to_int(vm, st, v, base=None):
    if isinstance(v, str):
        try:
            return int(v) if base is None else int(v, base)
        except ValueError as e:
            raise vm.exc(st, "ValueError", str(e))
    n = num_of(vm, st, v)
    if n is not None:
        ty, m = n
        if isinstance(m, T):
            m = st.facts.n(m)
        if not isinstance(m, T):
            try:
                return int(m)
            except (ValueError, OverflowError) as e:
                raise vm.exc(st, type(e).__name__, str(e))
        if m.sort == "bool":
            return A("int", b2i(m))
        if m.sort == "float":
            if m.op == "i2f":
                return A("int", m.args[0])
            return A("int", trunc(m))
        return A("int", m)
    if isinstance(v, A) and v.ty == "str":
        if st.choose((True, False)):
            return A("int", terms.mk("int_of_str", (v.m,), "int"))
        raise vm.exc(st, "ValueError", "invalid literal for int()")
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, HInst) and isinstance(o.cls, Ref):
            for name in ("__int__", "__index__"):
                f = vm.find(st, o.cls, name)
                if f is not NULL:
                    return TailCall(f, (v,))
        if isinstance(o, HArr) and o.shape in ((), (1,)):
            return to_int(vm, st, vm.np.item(vm, st, v))
    raise vm.exc(st, "TypeError", "int() argument")


def trunc(m):
    return terms.t_round("trunc", m)


def install_types(vm, nf):
    cl = vm.classes

    def ctor(name, fn):
        vm.boot.get(cl[name]).attrs["__new__"] = NF("__new__", fn)

    def c_int(vm, st, a, kw):
        if len(a) == 1:
            return 0
        b = a[2] if len(a) > 2 else kw.get("base")
        return to_int(vm, st, a[1], b)
    ctor("int", c_int)

    def c_float(vm, st, a, kw):
        if len(a) == 1:
            return 0.0
        v = a[1]
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError as e:
                raise vm.exc(st, "ValueError", str(e))
        n = num_of(vm, st, v)
        if n is not None:
            m = n[1]
            if isinstance(m, T) and m.sort == "bool":
                m = b2i(m)
            m = terms.to_f(m)
            return mkA("float", m)
        if isinstance(v, A) and v.ty == "str":
            if st.choose((True, False)):
                return A("float", terms.mk("float_of_str", (v.m,), "float"))
            raise vm.exc(st, "ValueError", "could not convert to float")
        raise vm.exc(st, "TypeError", "float() argument")
    ctor("float", c_float)

    def c_bool(vm, st, a, kw):
        if len(a) == 1:
            return False
        v = a[1]
        if isinstance(v, A) and isinstance(v.m, T):
            if v.m.sort == "bool":
                return A("bool", v.m)
            if v.m.sort == "int":
                return mkbool(terms.t_not(terms.t_eq0(v.m)))
        return vm.truth(st, v)
    ctor("bool", c_bool)

    def c_str(vm, st, a, kw):
        if len(a) == 1:
            return ""
        return to_str(vm, st, a[1])
    ctor("str", c_str)

    def seqctor(name, wrap, pname):
        def f(vm, st, a, kw):
            if len(a) == 1:
                return wrap(st, [])
            v = a[1]
            if isinstance(v, Ref) and isinstance(st.get(v), HList) and \
                    st.get(v).abs is not None:
                o = st.get(v)
                if name == "tuple":
                    raise Unmodelled("tuple of an abstract list")
                return st.new(HList(None, o.abs))
            items = vm.concrete_items(st, v, consume=True)
            if items is None:
                return TailCall(vm.prelude(st, pname), (v,))
            return wrap(st, items)
        ctor(name, f)
    seqctor("list", lambda st, x: st.new(HList(list(x))), "_list")
    seqctor("tuple", lambda st, x: tuple(x), "_tuple")
    seqctor("set", lambda st, x: st.new(HSet(
        {vm.nkey(st, i): i for i in x})), "_set")
    seqctor("frozenset", lambda st, x: st.new(HSet(
        {vm.nkey(st, i): i for i in x})), "_set")

    def c_dict(vm, st, a, kw):
        d = {}
        if len(a) > 1:
            v = a[1]
            if isinstance(v, Ref) and isinstance(st.get(v), HDict):
                d = dict(st.get(v).d)
            else:
                items = vm.concrete_items(st, v)
                if items is None:
                    if kw:
                        raise Unmodelled("dict(iterable, **kw)")
                    return TailCall(vm.prelude(st, "_dict"), (v,))
                for p in items:
                    k, x = vm.unpack_items(st, p, 2)
                    d[vm.nkey(st, k)] = (k, x)
        for k, x in kw.items():
            d[k] = (k, x)
        return st.new(HDict(d))
    ctor("dict", c_dict)

    def c_bytes(name):
        def f(vm, st, a, kw):
            if len(a) == 1:
                return mk_bytes(vm, st, name, [])
            v = a[1]
            if isinstance(v, bytes):
                return mk_bytes(vm, st, name, list(v))
            n = num_of(vm, st, v)
            if n is not None:
                if isinstance(n[1], T):
                    c = st.facts.const(n[1])
                    if c is None:
                        if name == "bytes":
                            return A("bytes", terms.mk(
                                "zeros", (n[1],), "str"))
                        raise Unmodelled("bytearray of symbolic length")
                    return mk_bytes(vm, st, name, [0] * c)
                if n[1] < 0:
                    raise vm.exc(st, "ValueError", "negative count")
                return mk_bytes(vm, st, name, [0] * n[1])
            if isinstance(v, str):
                return mk_bytes(vm, st, name, list(v.encode(
                    a[2] if len(a) > 2 else "utf-8")))
            if isinstance(v, A) and v.ty == "bytes":
                if name == "bytes":
                    return v
                return vm.opaque_bytearray(st, v)
            if isinstance(v, Ref) and isinstance(st.get(v), HInst) and \
                    "__bytes__" in st.get(v).attrs:
                return st.get(v).attrs["__bytes__"]
            if isinstance(v, Ref) and isinstance(st.get(v), HList) and \
                    st.get(v).abs is not None:
                return st.new(HList(None, st.get(v).abs))
            items = vm.concrete_items(st, v, consume=True)
            if items is None:
                return TailCall(vm.prelude(st, "_" + name), (v,))
            for x in items:
                n = num_of(vm, st, x)
                if n is None or is_float(n[0]):
                    raise vm.exc(st, "TypeError", "an integer is required")
                byte_check(vm, st, n[1])
            return mk_bytes(vm, st, name, items)
        return f

    def byte_check(vm, st, m):
        if not isinstance(m, T):
            if not 0 <= m <= 255:
                raise vm.exc(st, "ValueError",
                             "byte must be in range(0, 256)")
            return
        if st.decide(terms.t_le0(terms.add(m, 1))) or \
                st.decide(terms.t_le0(terms.sub(256, m))):
            raise vm.exc(st, "ValueError", "byte must be in range(0, 256)")
    vm.byte_check = byte_check
    ctor("bytes", c_bytes("bytes"))
    ctor("bytearray", c_bytes("bytearray"))

    def c_range(vm, st, a, kw):
        xs = []
        for v in a[1:]:
            n = num_of(vm, st, v)
            if n is None or is_float(n[0]):
                raise vm.exc(st, "TypeError",
                             "object cannot be interpreted as an integer")
            m = n[1]
            if isinstance(m, T):
                c = st.facts.const(m)
                m = m if c is None else c
            xs.append(m)
        if len(xs) == 1:
            lo, hi, step = 0, xs[0], 1
        elif len(xs) == 2:
            lo, hi, step = xs[0], xs[1], 1
        else:
            lo, hi, step = xs
        if isinstance(step, T):
            raise Unmodelled("symbolic range step")
        if step == 0:
            raise vm.exc(st, "ValueError", "range() arg 3 must not be zero")
        if isinstance(lo, T) or isinstance(hi, T):
            if step < 0:
                raise Unmodelled("descending symbolic range")
            return ARange(lo, hi, step)
        return range(int(lo), int(hi), int(step))
    ctor("range", c_range)

    def c_slice(vm, st, a, kw):
        return slice(*a[1:])
    ctor("slice", c_slice)

    def c_type(vm, st, a, kw):
        if len(a) == 2:
            return vm.class_of(st, a[1])
        _, name, bases, ns = a
        attrs = {k: v for k, v in st.get(ns).d.values()}
        name = const_str(st, name)
        g = st.get(st.frames[-1].glob).name if st.frames else "?"
        return make_class(vm, st, name if isinstance(name, str) else
                          "<computed>", bases, attrs, {}, g)
    ctor("type", c_type)

    def c_prop(kind):
        def f(vm, st, a, kw):
            return st.new(HBox(kind, tuple(a[1:])))
        return f
    for k in ("property", "staticmethod", "classmethod"):
        ctor(k, c_prop(k))
        st = None

    def c_obj(vm, st, a, kw):
        return st.new(HInst(a[0], {}))
    vm.builtins["object_new"] = NF("object_new", c_obj)

    # Enum base: functional API
    def c_enum(vm, st, a, kw):
        c = a[0]
        if len(a) >= 3 or "names" in kw:
            name = a[1]
            names = a[2] if len(a) > 2 else kw["names"]
            if isinstance(names, str):
                names = tuple(names.replace(",", " ").split())
            elif isinstance(names, Ref) and isinstance(st.get(names), HDict):
                names = tuple(st.get(names).d.values())
            else:
                names = vm.concrete_items(st, names)
            if names is None:
                raise Unmodelled("enumeration from an abstract sequence")
            attrs = {}
            start = kw.get("start", 1)
            for i, x in enumerate(names):
                if isinstance(x, tuple):
                    attrs[const_str(st, x[0])] = x[1]
                else:
                    x = const_str(st, x)
                    if not isinstance(x, str):
                        raise Unmodelled("computed enumeration name")
                    if x in attrs:
                        raise vm.exc(st, "TypeError", "reused key %s" % x)
                    attrs[x] = start + i if not st.get(c).meta.get(
                        "flag") else 1 << i
            return fast_enum(vm, st, name, c, attrs)
        return enum_call(vm, st, c, a[1:], kw)
    vm.boot.get(cl["Enum"]).attrs["__new__"] = NF("__new__", c_enum)
    vm.boot.get(cl["Enum"]).meta["__members__"] = vm.boot.new(HDict())


def fast_enum(vm, st, name, base, attrs):
    c = st.new(HClass(name, (base,), (), {}, "?"))
    o = st.mut(c)
    o.mro = (c,) + st.get(base).mro
    for k in ("intenum", "flag"):
        if st.get(base).meta.get(k):
            o.meta[k] = True
    members = {}
    byval = {}
    for k, v in attrs.items():
        key = vm.nkey(st, v)
        m = byval.get(key)
        if m is None:
            m = st.new(HInst(c, {"name": k, "value": v, "_name_": k,
                                 "_value_": v}))
            byval[key] = m
        members[k] = (k, m)
        o.attrs[k] = m
    o.meta["__members__"] = st.new(HDict(members))
    o.meta["enum_ready"] = True
    return c


def mk_bytes(vm, st, name, items):
    if name == "bytes":
        if all(isinstance(x, int) for x in items):
            return bytes(items)
        l = st.new(HList(list(items)))
        return l
    return st.new(HList(list(items)))
