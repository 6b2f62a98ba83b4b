"""Abstract scalar terms: hash-consed expressions in linear normal form, with
interval, congruence and bit-level views.  No solver: every question is
answered by normalisation, interval arithmetic, congruences or comparison of
bit vectors whose bits are XORs of atom bits."""

import math

INF = float("inf")


class Infeasible(Exception):
    pass


class T:
    __slots__ = ("op", "args", "sort", "id", "syms")

    def __repr__(self):
        if self.op == "sym":
            return "%s#%d" % self.args
        if self.op == "lin":
            return "(" + " + ".join(
                ["%s*%r" % (c, a) if c != 1 else "%r" % a
                 for a, c in self.args[1]] +
                ([str(self.args[0])] if self.args[0] else [])) + ")"
        return "%s(%s)" % (self.op, ", ".join(
            getattr(a, "tname", None) or repr(a) for a in self.args))

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


_table = {}
_count = [0]
_NOSYMS = frozenset()


def mk(op, args, sort="int"):
    key = (op, args, sort, tuple(type(a) for a in args)
           if op != "lin" else None)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        _count[0] += 1
        t.id = _count[0]
        if op == "sym":
            t.syms = frozenset([t])
        else:
            s = set()
            _collect(args, s)
            t.syms = frozenset(s) if s else _NOSYMS
        _table[key] = t
    return t


def _collect(x, s):
    if isinstance(x, T):
        s |= x.syms
    elif isinstance(x, tuple):
        for y in x:
            _collect(y, s)
    elif hasattr(x, "term_syms"):
        s |= x.term_syms()


_symn = [0]


def sym(name, sort="int"):
    _symn[0] += 1
    return mk("sym", (name, _symn[0]), sort)


def reset():
    _table.clear()
    _symn[0] = 0


# ---- linear forms -----------------------------------------------------

def parts(x):
    """(const, {atom: coef}) of an int term or host int"""
    if isinstance(x, T):
        if x.op == "lin":
            return x.args[0], dict(x.args[1])
        return 0, {x: 1}
    return int(x), {}


def lin(c, d):
    items = [(a, k) for a, k in d.items() if k]
    if not items:
        return c
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return mk("lin", (c, tuple(items)))


def add(x, y, k=1):
    """x + k*y"""
    if not isinstance(x, T) and not isinstance(y, T):
        return int(x) + k * int(y)
    c, d = parts(x)
    c2, d2 = parts(y)
    for a, v in d2.items():
        d[a] = d.get(a, 0) + k * v
    return lin(c + k * c2, d)


def sub(x, y):
    return add(x, y, -1)


def scale(x, k):
    if not isinstance(x, T):
        return int(x) * k
    c, d = parts(x)
    return lin(c * k, {a: v * k for a, v in d.items()})


def subst(t, m):
    """Replace atoms per mapping m (atom -> term/const); rebuilds with the
    normalising constructors, no facts."""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(subst(x, m) for x in t)
        if hasattr(t, "term_subst"):
            return t.term_subst(m)
        return t
    if t in m:
        return m[t]
    if t.op == "sym":
        return t
    if not m or not t.syms:
        return t
    for s in t.syms:
        if s in m:
            break
    else:
        for a in m:
            if a.op != "sym":
                break
        else:
            return t
    if t.op == "lin":
        r = t.args[0]
        for a, k in t.args[1]:
            r = add(r, subst(a, m), k)
        return r
    args = tuple(subst(a, m) for a in t.args)
    if args == t.args:
        return t
    return rebuild(t.op, args, t.sort)


def rebuild(op, args, sort):
    f = _REBUILD.get(op)
    if f:
        return f(*args)
    return mk(op, args, sort)


def t_not(x):
    if isinstance(x, bool):
        return not x
    if x.op == "not":
        return x.args[0]
    return mk("not", (x,), "bool")


def t_le0(x):
    """x <= 0, gcd-normalised"""
    if not isinstance(x, T):
        return x <= 0
    c, d = parts(x)
    g = 0
    for v in d.values():
        g = math.gcd(g, abs(v))
    if g > 1:
        c = -((-c) // g)
        d = {a: v // g for a, v in d.items()}
    return mk("le0", (lin(c, d),), "bool")


def t_eq0(x):
    if not isinstance(x, T):
        return x == 0
    c, d = parts(x)
    g = 0
    for v in d.values():
        g = math.gcd(g, abs(v))
    if g > 1:
        if c % g:
            return False
        c //= g
        d = {a: v // g for a, v in d.items()}
    first = min(d, key=lambda a: a.id)
    if d[first] < 0:
        c = -c
        d = {a: -v for a, v in d.items()}
    return mk("eq0", (lin(c, d),), "bool")


def t_mod(x, m):
    if not isinstance(m, T) and not isinstance(x, T):
        if m == 0:
            return mk("mod", (x, m))
        return x % m
    if not isinstance(m, T) and m > 0:
        c, d = parts(x)
        d = {a: v % m for a, v in d.items()}
        x = lin(c % m, d)
        if not isinstance(x, T):
            return x % m
        if x.op == "mod" and not isinstance(x.args[1], T) and \
                x.args[1] % m == 0:
            return t_mod(x.args[0], m)
    if not isinstance(x, T) and x == 0:
        return 0        # (a zero modulus is refused before)
    return mk("mod", (x, m))


def t_fdiv(x, m):
    if not isinstance(m, T) and not isinstance(x, T):
        if m == 0:
            return mk("fdiv", (x, m))
        return x // m
    if not isinstance(m, T) and m > 0:
        if m == 1:
            return x
        c, d = parts(x)
        q, r = {}, {}
        for a, v in d.items():
            if v // m:
                q[a] = v // m
            if v % m:
                r[a] = v % m
        qq = lin(c // m, q)
        rr = lin(c % m, r)
        if not isinstance(rr, T):
            return add(qq, rr // m)
        if rr.op == "fdiv" and not isinstance(rr.args[1], T):
            return add(qq, mk("fdiv", (rr.args[0], rr.args[1] * m)))
        return add(qq, mk("fdiv", (rr, m)))
    if not isinstance(x, T) and x == 0:
        return 0
    return mk("fdiv", (x, m))


def t_minmax(op, x, y, sort):
    """min or max of two terms; clipping has one normal form,
    min(hi, max(lo, x))"""
    a, b = sorted((x, y), key=lambda v: (isinstance(v, T),
                                         v.id if isinstance(v, T) else v))
    if not isinstance(a, T):
        if not isinstance(b, T):
            return min(a, b) if op == "min" else max(a, b)
        c = b.args[0] if b.op in ("min", "max") else None
        if c is not None and not isinstance(c, T):
            if b.op == op:
                return t_minmax(op, min(a, c) if op == "min" else max(a, c),
                                b.args[1], sort)
            if op == "min" and a <= c or op == "max" and a >= c:
                return a
            if op == "max":
                return mk("min", (c, t_minmax("max", a, b.args[1], sort)),
                          sort)
    elif a is b:
        return a
    return mk(op, (a, b), sort)


def t_round(op, x):
    """a float term rounded to an int term (trunc, floor, ceil, rint)"""
    if x.op == "i2f":
        return x.args[0]
    if x.op in ("min", "max"):
        c, y = x.args
        if isinstance(y, T) and not isinstance(c, T) and c == int(c):
            return t_minmax(x.op, int(c), t_round(op, y), "int")
    return mk(op, (x,), "int")


def elim(x):
    """An integer multiple of x (a linear form) in which floor divisions by
    constants are expressed through remainders: k*(e//k) = e - e%k and
    a*((e//a)%b) = e%(a*b) - e%a."""
    for _ in range(12):
        c, d = parts(x)
        m = 1
        todo = False
        for a, k in d.items():
            q = _fd(a)
            if q is not None:
                todo = True
                m = m * q // math.gcd(m, q)
        if not todo:
            return x
        if m > 1 << 40:
            return x
        r = c * m
        for a, k in d.items():
            q = _fd(a)
            k *= m
            if q is None:
                r = add(r, a, k)
            elif a.op == "fdiv":
                e = a.args[0]
                r = add(r, add(e, t_mod(e, q), -1), k // q)
            else:
                e = a.args[0].args[0]
                r = add(r, add(t_mod(e, q * a.args[1]), t_mod(e, q), -1),
                        k // q)
        x = r
        if not isinstance(x, T):
            return x
    return x


def _fd(a):
    """the divisor if a is a floor division (or the remainder of one)"""
    if a.op == "mod" and not isinstance(a.args[1], T) and \
            isinstance(a.args[0], T) and a.args[0].op == "fdiv":
        a = a.args[0]
    if a.op == "fdiv" and not isinstance(a.args[1], T) and a.args[1] > 1:
        return a.args[1]
    return None


def t_and(x, y):
    if not isinstance(x, T):
        x, y = y, x
    if not isinstance(x, T):
        return x & y
    if not isinstance(y, T):
        if y == 0:
            return 0
        if y > 0 and y & (y + 1) == 0:
            return t_mod(x, y + 1)
        return mk("and", (x, y))
    if x is y:
        return x
    if y.id < x.id:
        x, y = y, x
    return mk("and", (x, y))


def t_bin(op):
    def f(x, y):
        if not isinstance(x, T):
            x, y = y, x
        if not isinstance(x, T):
            return x | y if op == "or" else x ^ y
        if not isinstance(y, T):
            if y == 0:
                return x
        elif x is y:
            return x if op == "or" else 0
        elif y.id < x.id:
            x, y = y, x
        return mk(op, (x, y))
    return f


t_or = t_bin("or")
t_xor = t_bin("xor")


def t_mul(x, y):
    if not isinstance(x, T):
        x, y = y, x
    if not isinstance(y, T):
        return scale(x, y) if isinstance(x, T) else x * y
    # distribute a constant factor
    if y.id < x.id:
        x, y = y, x
    return mk("mul", (x, y))


# floats: product normal form  coef * prod(atom^k); the rest uninterpreted

def f_parts(x):
    if isinstance(x, T):
        if x.op == "fprod":
            return x.args[0], dict(x.args[1])
        return 1.0, {x: 1}
    return float(x), {}


def f_mk(c, d):
    items = [(a, k) for a, k in d.items() if k]
    if not items:
        return c
    if c == 0 or c != c:
        return mk("fprod", (c, tuple(sorted(items, key=lambda p: p[0].id))),
                  "float")
    if c == 1.0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return mk("fprod", (c, tuple(items)), "float")


def to_f(x):
    """int term viewed as a float"""
    if not isinstance(x, T):
        return float(x)
    if x.sort == "float":
        return x
    return mk("i2f", (x,), "float")


def f_mul(x, y, sign=1):
    c, d = f_parts(to_f(x))
    c2, d2 = f_parts(to_f(y))
    if sign < 0:
        if not d2 and c2 == 0:
            return mk("fdiv0", (to_f(x),), "float")
        c = c / c2 if c2 else c
    else:
        c = c * c2
    for a, v in d2.items():
        d[a] = d.get(a, 0) + sign * v
    return f_mk(c, d)


def f_add(x, y, k=1):
    x, y = to_f(x), to_f(y)
    if not isinstance(x, T) and not isinstance(y, T):
        return x + k * y
    if k < 0:
        y = f_mul(y, -1.0)
    if not isinstance(x, T) and x == 0:
        return y
    if not isinstance(y, T) and y == 0:
        return x
    a = [x, y]
    a.sort(key=lambda t: (isinstance(t, T), t.id if isinstance(t, T) else t))
    return mk("fadd", tuple(a), "float")


def t_flt(x, y):
    """x < y on floats (or mixed)"""
    if not isinstance(x, T) and not isinstance(y, T):
        return x < y
    x, y = to_f(x), to_f(y)
    return mk("flt", (x, y), "bool")


def t_feq(x, y):
    if not isinstance(x, T) and not isinstance(y, T):
        return x == y
    x, y = to_f(x), to_f(y)
    if x is y:
        return True
    a = [x, y]
    a.sort(key=lambda t: (isinstance(t, T), t.id if isinstance(t, T) else t))
    return mk("feq", tuple(a), "bool")


_REBUILD = {
    "not": t_not, "le0": t_le0, "eq0": t_eq0, "mod": t_mod, "fdiv": t_fdiv,
    "and": t_and, "or": t_or, "xor": t_xor, "mul": t_mul, "flt": t_flt,
    "feq": t_feq, "i2f": to_f,
    "fadd": lambda a, b: f_add(a, b),
}


def _re_fprod(c, items):
    r = c
    for a, k in items:
        for _ in range(abs(k)):
            r = f_mul(r, a, 1 if k > 0 else -1)
    return r


_REBUILD["fprod"] = _re_fprod


# ---- facts -------------------------------------------------------------

class Facts:
    """Interval/congruence facts about atoms, decided conditions, and
    substitutions.  Copied on fork."""
    __slots__ = ("iv", "truth", "sub", "bf", "_c")

    def __init__(self):
        self.iv = {}      # atom -> (lo, hi, mod, rem)
        self.truth = {}   # bool term -> bool
        self.sub = {}     # sym -> term
        self.bf = {}      # (atom, bit number) -> 0 or 1
        self._c = {}

    def copy(self):
        f = Facts()
        f.iv = dict(self.iv)
        f.truth = dict(self.truth)
        f.sub = dict(self.sub)
        f.bf = dict(self.bf)
        return f

    # -- normalisation
    def n(self, t):
        if not isinstance(t, T) or not self.sub:
            return t
        for s in t.syms:
            if s in self.sub:
                break
        else:
            return t
        r = self._c.get(t)
        if r is None:
            r = t
            for _ in range(20):
                r2 = subst(r, self.sub)
                if r2 is r or not isinstance(r2, T):
                    r = r2
                    break
                r = r2
            self._c[t] = r
        return r

    def rng(self, t):
        if not isinstance(t, T):
            return (t, t)
        t = self.n(t)
        return self._rng(t, 0)

    def _rng(self, t, depth):
        if not isinstance(t, T):
            return (t, t)
        op = t.op
        lo, hi = -INF, INF
        if op == "lin":
            c = t.args[0]
            lo = hi = c
            for a, k in t.args[1]:
                l, h = self._rng(a, depth + 1)
                if k > 0:
                    lo += k * l
                    hi += k * h
                else:
                    lo += k * h
                    hi += k * l
            # facts recorded on the constant-free part
            base = lin(0, dict(t.args[1]))
            f = self.iv.get(base)
            if f and base is not t:
                lo = max(lo, f[0] + c)
                hi = min(hi, f[1] + c)
        elif op == "mod":
            m = t.args[1]
            if not isinstance(m, T):
                lo, hi = (0, m - 1) if m > 0 else (m + 1, 0)
                x = t.args[0]
                if m > 1 and x.op == "lin" and m == int(m):
                    # a multiple of g plus c, modulo a multiple of g
                    g = int(m)
                    for _, k in x.args[1]:
                        g = math.gcd(g, int(k)) if k == int(k) else 1
                    if g > 1 and x.args[0] == int(x.args[0]):
                        lo = int(x.args[0]) % g
                        hi = m - g + lo
                l, h = self._rng(t.args[0], depth + 1)
                if m > 0 and 0 <= l and h < m:
                    lo, hi = l, h
                elif m > 0 and l > -INF and h < INF and l // m == h // m:
                    lo, hi = l % m, h % m
            else:
                l, h = self._rng(m, depth + 1)
                if l > 0:
                    lo, hi = 0, h - 1
        elif op == "fdiv":
            m = t.args[1]
            if not isinstance(m, T) and m > 0:
                l, h = self._rng(t.args[0], depth + 1)
                lo = l // m if l > -INF else l
                hi = h // m if h < INF else h
        elif op == "and":
            a, b = t.args
            l, h = self._rng(a, depth + 1)
            l2, h2 = self._rng(b, depth + 1)
            if l2 >= 0:
                lo, hi = 0, h2
            if l >= 0:
                lo = 0
                hi = min(hi, h)
        elif op in ("or", "xor"):
            l, h = self._rng(t.args[0], depth + 1)
            l2, h2 = self._rng(t.args[1], depth + 1)
            if l >= 0 and l2 >= 0:
                lo = max(l, l2) if op == "or" else 0
                if h < INF and h2 < INF:
                    hi = (1 << max(int(h).bit_length(),
                                   int(h2).bit_length())) - 1
        elif op == "mul" or op == "fprod":
            if op == "mul":
                l, h = self._rng(t.args[0], depth + 1)
                l2, h2 = self._rng(t.args[1], depth + 1)
                c = [_mul(x, y) for x in (l, h) for y in (l2, h2)]
                lo, hi = min(c), max(c)
            else:
                rs = [self._rng(a, depth + 1) for a, k in t.args[1]]
                if all(k > 0 or l > 0 or h < 0 for (_, k), (l, h) in zip(
                        t.args[1], rs)) and t.args[0] == t.args[0]:
                    lo = hi = t.args[0]
                    for (a, k), (l, h) in zip(t.args[1], rs):
                        if k < 0:
                            l, h = 1.0 / h, 1.0 / l
                        for _ in range(abs(k)):
                            c = [_mul(x, y) for x in (lo, hi)
                                 for y in (l, h)]
                            lo, hi = min(c), max(c)
        elif op == "i2f":
            lo, hi = self._rng(t.args[0], depth + 1)
        elif op == "clip":
            x, a, b = t.args
            l, h = self._rng(x, depth + 1)
            la, ha = self._rng(a, depth + 1)
            lb, hb = self._rng(b, depth + 1)
            lo = min(max(l, la), hb) if l > -INF else la
            lo = min(lo, hb)
            hi = max(min(h, hb), la)
        elif op == "min":
            rs = [self._rng(a, depth + 1) for a in t.args]
            lo, hi = min(r[0] for r in rs), min(r[1] for r in rs)
        elif op == "max":
            rs = [self._rng(a, depth + 1) for a in t.args]
            lo, hi = max(r[0] for r in rs), max(r[1] for r in rs)
        elif op == "abs":
            l, h = self._rng(t.args[0], depth + 1)
            hi = max(abs(l), abs(h))
            lo = 0 if l <= 0 <= h else min(abs(l), abs(h))
        elif op == "tbl":
            lo, hi = t.args[1].lo, t.args[1].hi
            ks = t.args[0]
            if len(ks) == 1 and isinstance(ks[0], T) and depth < 4 and \
                    len(t.args[1].items) <= 64:
                l, h = self._rng(ks[0], depth + 1)
                vs = [v for k, v in t.args[1].items if l <= k[0] <= h]
                if vs:
                    lo, hi = min(vs), max(vs)
        elif op == "wrap":
            lo, hi = t.args[1], t.args[2]
        elif op in ("trunc", "floor", "ceil", "rint"):
            l, h = self._rng(t.args[0], depth + 1)
            lo = math.floor(l) if -INF < l else l
            hi = math.ceil(h) if h < INF else h
            if op == "trunc" and l >= 0:
                lo = max(lo, 0)
        elif op == "b2i":
            lo, hi = 0, 1
            k = self.known(t.args[0]) if depth < 40 else None
            if k is not None:
                lo = hi = int(k)
        f = self.iv.get(t)
        if f:
            lo, hi = max(lo, f[0]), min(hi, f[1])
        return (lo, hi)

    def cong(self, t):
        """(m, r): t = r mod m; m == 0 means t == r"""
        if not isinstance(t, T):
            return (0, t)
        t = self.n(t)
        if not isinstance(t, T):
            return (0, t)
        return self._cong(t)

    def _cong(self, t):
        if not isinstance(t, T):
            return (0, t)
        f = self.iv.get(t)
        if f and f[0] == f[1]:
            return (0, f[0])
        if t.op == "lin":
            m, r = 0, t.args[0]
            for a, k in t.args[1]:
                m2, r2 = self._cong(a)
                m = math.gcd(m, abs(k * m2))
                r += k * r2
            if m:
                r %= m
            return (m, r)
        if t.op == "mod" and not isinstance(t.args[1], T):
            m, r = self._cong(t.args[0])
            g = math.gcd(m, t.args[1])
            if g > 1 or m == 0:
                if m % t.args[1] == 0:
                    return (0, r % t.args[1])
                return (g, r % g)
        if f and f[2] != 1:
            return (f[2], f[3])
        return (1, 0)

    def const(self, t):
        """host value if t is determined, else None"""
        if not isinstance(t, T):
            return t
        t = self.n(t)
        if not isinstance(t, T):
            return t
        lo, hi = self._rng(t, 0)
        if lo == hi:
            return lo
        m, r = self._cong(t)
        if m == 0:
            return r
        return None

    def _chain(self, x):
        """range of a - b + c by chains of known differences"""
        c, d = parts(x)
        if len(d) != 2:
            return -INF, INF
        (a, k), (b, m) = d.items()
        if k + m or k * k != 1:
            return -INF, INF
        if k < 0:
            a, b = b, a
        adj = self._c.get("adj")
        if adj is None:
            adj = {}    # x -> {y: bound of x - y}
            for t, f in self.iv.items():
                if t.op == "lin" and len(t.args[1]) == 2 and f[1] < INF and \
                        t.args[0] == 0:
                    (u, i), (w, j) = t.args[1]
                    if i == 1 and j == -1:
                        adj.setdefault(u, {})[w] = f[1]
                    elif i == -1 and j == 1:
                        adj.setdefault(w, {})[u] = f[1]
            self._c["adj"] = adj

        def upper(a, b):
            if a not in adj or len(adj) < 2:
                return INF
            dist, new = {a: 0}, [a]
            for _ in range(8):
                nxt = []
                for u in new:
                    for w, e in adj.get(u, {}).items():
                        if dist[u] + e < dist.get(w, INF):
                            dist[w] = dist[u] + e
                            nxt.append(w)
                if not nxt:
                    break
                new = nxt
            return dist.get(b, INF)
        return c - upper(b, a), c + upper(a, b)

    # -- decisions
    def known(self, t):
        """True/False/None for a bool term"""
        if not isinstance(t, T):
            return bool(t)
        t = self.n(t)
        if not isinstance(t, T):
            return bool(t)
        if t.op == "not":
            k = self.known(t.args[0])
            return None if k is None else not k
        v = self.truth.get(t)
        if v is not None:
            return v
        if t.op == "le0":
            lo, hi = self._rng(t.args[0], 0)
            if hi <= 0:
                return True
            if lo > 0:
                return False
            x = t.args[0]
            # known strict/opposite facts on the same linear part
            y = t_le0(add(1, x, -1))  # 1 - x <= 0  <=> x >= 1
            v = self.truth.get(y)
            if v is True:
                return False
            v = self.truth.get(t_eq0(x))
            if v is True:
                return True
            lo, hi = self._chain(x)
            return True if hi <= 0 else False if lo > 0 else None
        if t.op == "eq0":
            x = t.args[0]
            lo, hi = self._rng(x, 0)
            if lo == hi == 0:
                return True
            if lo > 0 or hi < 0:
                return False
            m, r = self._cong(x)
            if m == 0:
                return r == 0
            if m > 1 and r % m:
                return False
            if self.truth.get(t_le0(x)) is False or \
                    self.truth.get(t_le0(scale(x, -1))) is False:
                return False
            lo, hi = self._chain(x)
            if lo > 0 or hi < 0:
                return False
            v = self._eq_bits(x)
            if v is None:
                y = elim(x)
                if not isinstance(y, T):
                    return y == 0
                if y is not x:
                    return self.known(t_eq0(self.n(y)))
            return v
        if t.op == "flt":
            l, h = self._rng(t.args[0], 0) if isinstance(t.args[0], T) else \
                (t.args[0],) * 2
            l2, h2 = self._rng(t.args[1], 0) if isinstance(
                t.args[1], T) else (t.args[1],) * 2
            if h < l2:
                return True
            if l >= h2:
                return False
            return None
        if t.op == "feq":
            l, h = self._rng(t.args[0], 0) if isinstance(t.args[0], T) else \
                (t.args[0],) * 2
            l2, h2 = self._rng(t.args[1], 0) if isinstance(
                t.args[1], T) else (t.args[1],) * 2
            if h < l2 or l > h2:
                return False
            if t.args[0] is t.args[1]:
                return True
            return None
        if t.op in ("band", "bor"):
            a, b = self.known(t.args[0]), self.known(t.args[1])
            if t.op == "band":
                if a is False or b is False:
                    return False
                if a and b:
                    return True
            else:
                if a or b:
                    return True
                if a is False and b is False:
                    return False
            return None
        return None

    def _eq_bits(self, x):
        ab = self._pq_bits(x)
        if ab is None:
            return None
        a, b = ab
        if a == b:
            return True
        for u, v in zip(a, b):
            if u != v and bxor(u, v) == 1:
                return False
        return None

    def _pq_bits(self, x):
        """x as a difference p - q of two sums: their bits"""
        c, d = parts(x)
        pos = {a: v for a, v in d.items() if v > 0}
        neg = {a: -v for a, v in d.items() if v < 0}
        p = lin(c if c > 0 else 0, pos)
        q = lin(-c if c < 0 else 0, neg)
        a = self.bits(p)
        if a is None:
            return None
        b = self.bits(q)
        if b is None:
            return None
        n = max(len(a), len(b))
        return a + [0] * (n - len(a)), b + [0] * (n - len(b))

    # -- bits
    def bits(self, t):
        """little-endian list of bit expressions, or None"""
        if not isinstance(t, T):
            t = int(t)
            if t < 0:
                return None
            return [(t >> i) & 1 for i in range(t.bit_length())]
        t = self.n(t)
        if not isinstance(t, T):
            return self.bits(t)
        lo, hi = self._rng(t, 0)
        if lo < 0:
            return None
        if lo == hi:
            return self.bits(lo)
        op = t.op
        if op == "lin":
            # a sum of weighted bits
            c = t.args[0]
            w = {}
            for a, k in t.args[1]:
                ab = self.bits(a)
                if ab is None or k != int(k):
                    return None
                for i, u in enumerate(ab):
                    if u == 1:
                        c += k << i
                    elif u != 0:
                        w[u] = w.get(u, 0) + (k << i)
            for u in list(w):
                k = w[u]
                if k < 0:
                    del w[u]
                    c += k
                    u = bxor(u, 1)
                    w[u] = w.get(u, 0) - k
            if c < 0 or c != int(c):
                return None
            res = self.bits(c)
            for u, k in w.items():
                for i in range(k.bit_length()):
                    if k >> i & 1:
                        res = _badd(res, [0] * i + [u])
                        if res is None:
                            return None
            return res
        if op == "mod" and not isinstance(t.args[1], T):
            m = t.args[1]
            if m > 0 and m & (m - 1) == 0:
                ab = self.bits(t.args[0])
                if ab is not None:
                    return _trim(ab[:m.bit_length() - 1])
        if op == "fdiv" and not isinstance(t.args[1], T):
            m = t.args[1]
            if m > 0 and m & (m - 1) == 0:
                ab = self.bits(t.args[0])
                if ab is not None:
                    return _trim(ab[m.bit_length() - 1:])
        if op in ("and", "or", "xor"):
            a, b = self.bits(t.args[0]), self.bits(t.args[1])
            if a is not None and b is not None:
                n = max(len(a), len(b))
                a = a + [0] * (n - len(a))
                b = b + [0] * (n - len(b))
                out = []
                for u, v in zip(a, b):
                    if op == "xor":
                        out.append(bxor(u, v))
                    elif op == "and":
                        if u == 0 or v == 0:
                            out.append(0)
                        elif u == 1:
                            out.append(v)
                        elif v == 1 or u == v:
                            out.append(u)
                        else:
                            out.append(("b", frozenset([("and", u, v)])))
                    else:
                        if u == 1 or v == 1:
                            out.append(1)
                        elif u == 0:
                            out.append(v)
                        elif v == 0 or u == v:
                            out.append(u)
                        else:
                            out.append(("b", frozenset([("or", u, v)])))
                return _trim(out)
        if hi == INF:
            return None
        return [self._abit(t, i) for i in range(int(hi).bit_length())]

    def _abit(self, t, i):
        # a bit of an atom, unless a fact pins it
        m, r = self._cong(t)
        if m and m & (m - 1) == 0 and (1 << i) < m:
            return (r >> i) & 1
        if self.bf:
            v = self.bf.get((t, i))
            if v is not None:
                return v
        return ("b", frozenset([(t, i)]))

    def _learn_bits(self, x, v):
        """x == 0 was just assumed to be v: pin the bits this determines"""
        ab = self._pq_bits(x)
        if ab is None:
            return
        d = [w for w in (bxor(u, w) for u, w in zip(*ab)) if w != 0]
        if not v:
            if len(d) != 1:
                return
            if d[0] == 1:
                return
        for w in d:
            if w == 1:
                raise Infeasible()
            lits = [e for e in w[1] if e != 1]
            if len(lits) != 1 or not isinstance(lits[0][0], T):
                continue
            b = 1 if 1 in w[1] else 0
            self.bf[lits[0]] = b if v else 1 - b

    # -- assumptions
    def _set(self, a, lo, hi):
        cl, ch = self._rng(a, 0)
        f = self.iv.get(a, (-INF, INF, 1, 0))
        nlo, nhi = max(cl, lo), min(ch, hi)
        if f[2] > 1:
            if nlo > -INF:
                nlo = nlo + (f[3] - nlo) % f[2]
            if nhi < INF:
                nhi = nhi - (nhi - f[3]) % f[2]
        if nlo > nhi:
            raise Infeasible()
        if (nlo, nhi) != (f[0], f[1]):
            self.iv[a] = (nlo, nhi, f[2], f[3])
            self._c.clear()
            if a.op == "mod" and nlo == nhi and \
                    not isinstance(a.args[1], T) and a.args[1] > 1:
                self._setcong(a.args[0], a.args[1], nlo)
            elif a.op == "b2i" and nlo == nhi:
                self.assume(a.args[0], bool(nlo))
            elif nlo == nhi and a.op == "sym" and a.sort == "int" and \
                    a not in self.sub and nlo == int(nlo):
                self._sub(a, int(nlo))
            return True
        return False

    def _setcong(self, x, m, r):
        """x = r mod m, x a term: recorded on a single atom"""
        c, d = parts(x)
        if len(d) != 1:
            return
        (a, k), = d.items()
        if abs(k) != 1:
            return
        r = (r - c) * k % m
        f = self.iv.get(a, (-INF, INF, 1, 0))
        if f[2] % m == 0:
            if f[3] % m != r:
                raise Infeasible()
            return
        if m % f[2]:
            return
        if r % f[2] != f[3]:
            raise Infeasible()
        lo, hi = f[0], f[1]
        if lo > -INF:
            lo = lo + (r - lo) % m
        if hi < INF:
            hi = hi - (hi - r) % m
        if lo > hi:
            raise Infeasible()
        self.iv[a] = (lo, hi, m, r)
        self._c.clear()
        if lo == hi and a.op == "sym" and a.sort == "int" and \
                a not in self.sub:
            self._sub(a, int(lo))

    def assume(self, t, v=True):
        if not isinstance(t, T):
            if bool(t) != v:
                raise Infeasible()
            return
        t = self.n(t)
        if not isinstance(t, T):
            if bool(t) != v:
                raise Infeasible()
            return
        if t.op == "not":
            return self.assume(t.args[0], not v)
        k = self.known(t)
        if k is not None:
            if k != v:
                raise Infeasible()
            return
        self.truth[t] = v
        if t.op == "band" and v:
            self.assume(t.args[0], True)
            self.assume(t.args[1], True)
        elif t.op == "bor" and not v:
            self.assume(t.args[0], False)
            self.assume(t.args[1], False)
        elif t.op == "le0":
            x = t.args[0]
            self._upper(x if v else add(1, x, -1))
        elif t.op == "eq0":
            x = t.args[0]
            self._learn_bits(x, v)
            if v:
                self._upper(x)
                self._upper(scale(x, -1))
                self._substitute(x)
            else:
                c, d = parts(x)
                if len(d) == 1:
                    (a, k), = d.items()
                    if c % k == 0:
                        w = -c // k
                        lo, hi = self._rng(a, 0)
                        if lo == w:
                            self._set(a, w + 1, hi)
                        elif hi == w:
                            self._set(a, lo, w - 1)
                base = lin(0, d)
                if len(d) > 1:
                    lo, hi = self._rng(base, 0)
                    w = -c
                    if lo == w:
                        self._setlin(base, w + 1, hi)
                    elif hi == w:
                        self._setlin(base, lo, w - 1)
        elif t.op == "feq":
            a, b = t.args
            if v and isinstance(a, T) and not isinstance(b, T):
                self._fset(a, b, b)
            elif v and isinstance(b, T) and not isinstance(a, T):
                self._fset(b, a, a)
        elif t.op == "flt":
            a, b = t.args
            if v:
                # a < b
                if isinstance(a, T) and not isinstance(b, T):
                    self._fset(a, -INF, b)
                if isinstance(b, T) and not isinstance(a, T):
                    self._fset(b, a, INF)
            else:
                if isinstance(a, T) and not isinstance(b, T):
                    self._fset(a, b, INF)
                if isinstance(b, T) and not isinstance(a, T):
                    self._fset(b, -INF, a)

    def _fset(self, a, lo, hi):
        if a.op == "i2f":
            x = a.args[0]
            if lo > -INF:
                self._upper(add(math.ceil(lo), x, -1))
            if hi < INF:
                self._upper(add(x, math.floor(hi), -1))
            return
        self._set(a, lo, hi)

    def _setlin(self, base, lo, hi):
        neg = scale(base, -1)
        f = self.iv.get(base, (-INF, INF, 1, 0))
        g = self.iv.get(neg, (-INF, INF, 1, 0))
        lo = max(lo, f[0], -g[1])
        hi = min(hi, f[1], -g[0])
        # excluded ends
        while lo <= hi and lo > -INF and \
                self.truth.get(t_eq0(add(base, lo, -1))) is False:
            lo += 1
        while lo <= hi < INF and \
                self.truth.get(t_eq0(add(base, hi, -1))) is False:
            hi -= 1
        if lo > hi:
            raise Infeasible()
        self.iv[base] = (lo, hi, f[2], f[3])
        self.iv[neg] = (-hi, -lo, g[2], g[3])
        self._c.clear()

    def _upper(self, x):
        """assume x <= 0"""
        if not isinstance(x, T):
            if x > 0:
                raise Infeasible()
            return
        c, d = parts(x)
        mins = {}
        for a, k in d.items():
            l, h = self._rng(a, 0)
            mins[a] = k * l if k > 0 else k * h
        tot = sum(mins.values())
        for a, k in d.items():
            if tot == -INF:
                rest = c + sum(v for b, v in mins.items() if b is not a)
            else:
                rest = c + tot - mins[a]
            if rest == -INF or rest != rest:
                continue
            bound = -rest  # k*a <= bound
            if k > 0:
                self._set_deep(a, -INF, bound // k)
            else:
                self._set_deep(a, -((bound) // (-k)), INF)
        if len(d) > 1:
            base = lin(0, d)
            if base.op == "lin":
                self._setlin(base, -INF, -c)
        self._c.clear()

    def _set_deep(self, a, lo, hi):
        if not self._set(a, lo, hi):
            return
        # push bounds through shifts
        if a.op == "fdiv" and not isinstance(a.args[1], T) and a.args[1] > 0:
            m = a.args[1]
            l, h = self.iv[a][0], self.iv[a][1]
            if h < INF:
                self._upper(add(a.args[0], h * m + m - 1, -1))
            if l > -INF:
                self._upper(add(l * m, a.args[0], -1))

    def _substitute(self, x):
        c, d = parts(x)
        if len(d) == 1:
            (a, k), = d.items()
            v = -c // k
            self._set(a, v, v)
            if a.op == "sym" and a not in self.sub:
                self._sub(a, v)
            return
        best = None
        for a, k in d.items():
            if a.op == "sym" and abs(k) == 1:
                others = [b for b in d if b is not a]
                if any(a in b.syms for b in others):
                    continue
                if best is None or a.id > best.id:
                    best = a
        if best is None:
            return
        k = d.pop(best)
        r = lin(c, d)
        r = scale(r, -1) if k == 1 else r
        f = self.iv.get(best)
        if f:
            self._upper(add(r, f[1], -1)) if f[1] < INF else None
            self._upper(add(f[0], r, -1)) if f[0] > -INF else None
        self._sub(best, r)

    def _sub(self, a, r):
        self.sub[a] = r
        self._c.clear()
        # renormalise decided conditions
        old = self.truth
        self.truth = {}
        for t, v in old.items():
            if a in t.syms:
                t2 = self.n(t)
                k = self.known(t2)
                if k is not None:
                    if k != v:
                        raise Infeasible()
                    continue
                while isinstance(t2, T) and t2.op == "not":
                    t2, v = t2.args[0], not v
                if isinstance(t2, T):
                    self.truth[t2] = v
                    if t2.op == "le0":
                        self._upper(t2.args[0] if v else
                                    add(1, t2.args[0], -1))
            else:
                self.truth[t] = v
        for (t, i), v in list(self.bf.items()):
            if a in t.syms:
                del self.bf[(t, i)]
                b = self.bits(t)
                if b is None or i >= len(b):
                    continue
                if b[i] in (0, 1):
                    if b[i] != v:
                        raise Infeasible()
                elif len(b[i][1]) == 1:
                    (e,) = b[i][1]
                    if isinstance(e[0], T):
                        self.bf[e] = v
        for t, f in list(self.iv.items()):
            if a in t.syms and t is not a:
                t2 = self.n(t)
                if isinstance(t2, T):
                    if t2.op == "lin":
                        c, d = parts(t2)
                        b = lin(0, d)
                        if b.op == "lin":
                            self._setlin(b, f[0] - c, f[1] - c)
                    else:
                        self._set(t2, f[0], f[1])
                elif not (f[0] <= t2 <= f[1]):
                    raise Infeasible()


def _mul(x, y):
    if x == 0 or y == 0:
        return 0
    return x * y


def _trim(b):
    b = list(b)
    while b and b[-1] == 0:
        b.pop()
    return b


def bxor(u, v):
    if u == 0:
        return v
    if v == 0:
        return u
    if u == v:
        return 0
    s = frozenset() if u == 1 else u[1]
    r = frozenset() if v == 1 else v[1]
    x = (s ^ r)
    flip = (u == 1) ^ (v == 1)
    if flip:
        x = x ^ frozenset([1])
    if not x:
        return 0
    if x == frozenset([1]):
        return 1
    return ("b", x)


def _badd(a, b):
    """sum of two bit vectors with disjoint (non-overlapping) bits"""
    n = max(len(a), len(b))
    a = a + [0] * (n - len(a))
    b = b + [0] * (n - len(b))
    out = []
    for u, v in zip(a, b):
        if u == 0:
            out.append(v)
        elif v == 0:
            out.append(u)
        else:
            return None
    return out
