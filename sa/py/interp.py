"""Abstract interpreter for CPython bytecode (the host's compiler lowers the
repository's source; the result is never executed)."""

import builtins
import importlib
import operator
import types

import numpy

from sa.report import AnalysisError
from . import terms
from .terms import T, Infeasible
from .state import (A, Ref, NF, BM, Choice, ARange, Table, HList, HDict, HSet,
                    HInst, HClass, HModule, HFunc, HCell, HGen, HIter, HBox,
                    HStore, HArr, CodeInfo, Frame, State, ForkNeeded, PyRaise,
                    NeedModulus)


class _Null:
    def __repr__(self):
        return "<NULL>"


NULL = _Null()


class TailCall:
    def __init__(self, fn, args=(), kw=None, ret=None):
        self.fn, self.args, self.kw, self.ret = fn, args, kw or {}, ret


class Pushed:
    """returned by natives that pushed a frame themselves"""


PUSHED = Pushed()


class Unmodelled(AnalysisError):
    pass


def mkA(ty, m):
    if not isinstance(m, T):
        if ty == "int":
            return int(m)
        if ty == "bool":
            return bool(m)
        if ty == "float":
            return float(m)
        if ty == "str":
            return m
        if ty in ("bool_",):
            return A(ty, bool(m))
    return A(ty, m)


class VM:
    def __init__(self, sources):
        """sources: module name -> (path, source text)"""
        self.sources = sources
        self.base_syms = set()
        self.st = None
        self.builtins = {}      # name -> value
        self.classes = {}       # builtin class name -> Ref
        self.natmods = {}       # module name -> function(vm, st) -> attrs
        self.methods = {}       # builtin type name -> {method: NF}
        self.moduli = {}
        self.obligations = []
        self.insn_count = 0
        self.on_check = None
        self.tags = {}          # widened sym -> leaf key
        self.modules_loading = {}
        self.hooks = {}
        self.code_seen = set()
        from . import builtins_
        builtins_.install(self)
        from . import npmodel
        npmodel.install(self)
        from . import env
        env.install(self)

    # ------------------------------------------------------------- helpers
    def cls(self, name):
        return self.classes[name]

    def exc(self, st, name, *args):
        o = HInst(self.classes[name] if isinstance(name, str) else name,
                  {"args": tuple(args)})
        return PyRaise(st.new(o))

    def class_of(self, st, v):
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, HInst):
                return o.cls
            n = _HNAMES.get(type(o))
            if n:
                return self.classes[n]
            if isinstance(o, HClass):
                return self.classes["type"]
            if isinstance(o, HBox):
                return self.classes["object"]
            raise Unmodelled("class of %r" % (o,))
        if isinstance(v, A):
            n = v.ty
            if n in self.classes:
                return self.classes[n]
            raise Unmodelled("class of %r" % (v,))
        if isinstance(v, Choice):
            cs = {self.class_of(st, x) for _, x in v.options}
            if len(cs) == 1:
                return cs.pop()
            raise Unmodelled("class of %r" % (v,))
        n = type(v).__name__
        if isinstance(v, (NF, BM)):
            n = "function"
        if isinstance(v, ARange):
            n = "range"
        if n in self.classes:
            return self.classes[n]
        raise Unmodelled("class of %r" % (v,))

    def mro(self, st, c):
        if isinstance(c, Choice):
            ms = {self.mro(st, x) for _, x in c.options}
            # common tail of the resolution orders
            ms = sorted(ms, key=str)
            first = ms[0]
            for i in range(len(first)):
                if all(m[-(len(first) - i):] == first[i:] for m in ms):
                    return first[i:]
            return ()
        return st.get(c).mro

    def find(self, st, c, name):
        """attribute of class c through its mro; NULL if absent"""
        if isinstance(c, Choice):
            vals = []
            for k, x in c.options:
                vals.append((k, self.find(st, x, name)))
            return self.merge_choice(st, c.key, vals)
        for k in st.get(c).mro:
            o = st.get(k)
            if name in o.attrs:
                return o.attrs[name]
        return NULL

    def merge_choice(self, st, key, vals):
        first = vals[0][1]
        if all(v is first or (type(v) is type(first) and v == first)
               for _, v in vals):
            return first
        if all(isinstance(v, int) and not isinstance(v, bool)
               for _, v in vals):
            if len(key) == 1 and all(k == (v,) for k, v in vals):
                return mkA("int", key[0])
            if len(key) == 1 and len(vals) > 1:
                # values in arithmetic progression
                (k0,), v0 = vals[0]
                (k1,), v1 = vals[1]
                if all(type(k[0]) is int for k, _ in vals) and k1 != k0 and \
                        (v1 - v0) % (k1 - k0) == 0:
                    q = (v1 - v0) // (k1 - k0)
                    if all(v == v0 + q * (k[0] - k0) for k, v in vals):
                        return mkA("int", terms.add(
                            v0 - q * k0, terms.scale(key[0], q)))
            t = Table.get(tuple(vals))
            return mkA("int", terms.mk("tbl", (tuple(key), t)))
        return Choice(tuple(key), tuple(vals))

    def resolve(self, st, c):
        """the selected value of a Choice, by case distinction"""
        groups = []
        for k, v in c.options:
            if not self.key_possible(st, c.key, k):
                continue
            for g in groups:
                if g[0] is v or (type(g[0]) is type(v) and g[0] == v):
                    g[1].append(k)
                    break
            else:
                groups.append((v, [k]))
        if not groups:
            raise terms.Infeasible()
        i = st.choose(tuple(range(len(groups)))) if len(groups) > 1 else 0
        v, ks = groups[i]
        if len(groups) > 1:
            for j, a in enumerate(c.key):
                if not isinstance(a, T):
                    continue
                xs = [k[j] for k in ks]
                st.facts.assume(terms.t_le0(terms.sub(min(xs), a)), True)
                st.facts.assume(terms.t_le0(terms.sub(a, max(xs))), True)
        return v

    def issub(self, st, c, d):
        return d in self.mro(st, c)

    def isinst(self, st, v, c):
        if isinstance(c, tuple):
            return any(self.isinst(st, v, x) for x in c)
        k = self.class_of(st, v)
        if isinstance(c, Choice):
            if c == k:
                return True
            c = self.resolve(st, c)
        if not isinstance(c, Ref):
            raise Unmodelled("isinstance with %r" % (c,))
        if isinstance(k, Choice) and c not in self.mro(st, k) and any(
                c in self.mro(st, x) for _, x in k.options):
            k = self.resolve(st, k)
        return self.issub(st, k, c)

    def is_exc_match(self, st, exc, c):
        return self.isinst(st, exc, c)

    # truth value
    def truth(self, st, v):
        if v is None or isinstance(v, (bool, int, float, str, bytes, tuple,
                                       range)):
            return bool(v)
        if isinstance(v, A):
            if isinstance(v.m, T):
                if v.m.sort == "bool":
                    return st.decide(v.m)
                if v.m.sort == "float":
                    return not st.decide(terms.t_feq(v.m, 0.0))
                if v.m.sort == "int":
                    return not st.decide(terms.t_eq0(v.m))
                if v.m.sort == "str":
                    return st.decide(terms.mk("nonempty", (v.m,), "bool"))
                if v.m.sort == "obj":
                    return st.decide(terms.mk("truth", (v.m,), "bool"))
                raise Unmodelled("truth of %r" % (v,))
            return bool(v.m)
        if isinstance(v, (NF, BM, types.CodeType, slice)):
            return True
        if isinstance(v, Choice):
            ts = {self.truth(st, x) for _, x in v.options}
            if len(ts) == 1:
                return ts.pop()
            return self.truth(st, self.resolve(st, v))
        if isinstance(v, ARange):
            return self.truth(st, self.length(st, v))
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, HList):
                if o.abs is not None:
                    return o.abs.truth(self, st)
                return bool(o.items)
            if isinstance(o, HSet) and o.abs:
                return st.choose((True, False))
            if isinstance(o, (HDict, HSet)):
                return bool(o.d)
            if isinstance(o, HInst):
                f = self.find(st, o.cls, "__bool__")
                if f is NULL:
                    f = self.find(st, o.cls, "__len__")
                if f is not NULL:
                    if isinstance(f, NF):
                        return self.truth(st, f.fn(self, st, (v,), {}))
                    raise Unmodelled("__bool__ in Python")
                return True
            if isinstance(o, HArr):
                return self.np.truth(self, st, v)
            return True
        raise Unmodelled("truth of %r" % (v,))

    def length(self, st, v):
        return self.builtins["len"].fn(self, st, (v,), {})

    # ----------------------------------------------------------- attributes
    def getattr(self, st, v, name, default=NULL):
        r = self._getattr(st, v, name)
        if r is NULL:
            if default is not NULL:
                return default
            self.check_modelled(st, v, name)
            raise self.exc(st, "AttributeError", "%s has no attribute %s" % (
                self.describe(st, v), name))
        return r

    def check_modelled(self, st, v, name):
        """a missing attribute that the real library has"""
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, HModule):
                if o.name in REAL and hasattr(
                        importlib.import_module(o.name), name):
                    raise Unmodelled("%s.%s" % (o.name, name))
                return
            if isinstance(o, HClass):
                for c in o.mro:
                    n = st.get(c).name
                    if self.classes.get(n) == c and hasattr(
                            getattr(builtins, n, None), name):
                        raise Unmodelled("%s.%s" % (n, name))
            real = {HList: list, HDict: dict, HSet: set,
                    HArr: numpy.ndarray}.get(type(o))
        elif isinstance(v, A):
            real = {"int": int, "float": float, "str": str, "bytes": bytes,
                    "bool": bool}.get(v.ty)
        else:
            real = type(v) if type(v) in (int, float, str, bytes, bool,
                                          tuple, complex) else None
        if real is not None and hasattr(real, name):
            raise Unmodelled("%s.%s" % (real.__name__, name))

    def check_kw(self, fn, kw):
        """a keyword argument that the model of a function ignores"""
        known = _KWS.get(fn.fn)
        if known is None:
            known = _KWS[fn.fn] = strings_of(fn.fn, set(), 0)
        for k in kw:
            if k not in known and "**" not in known:
                raise Unmodelled("argument %s of %r" % (k, fn))

    def describe(self, st, v):
        try:
            return "%s object" % st.get(self.class_of(st, v)).name
        except Exception:
            return repr(v)

    def bindattr(self, st, a, obj, cls):
        """bind class attribute a looked up on instance obj (None for class)"""
        if isinstance(a, Ref):
            o = st.get(a)
            if isinstance(o, HFunc):
                return BM(a, obj) if obj is not None else a
            if isinstance(o, HBox):
                if o.kind == "staticmethod":
                    return o.args[0]
                if o.kind == "classmethod":
                    inner = o.args[0]
                    return BM(inner, cls)
                if o.kind == "lru":
                    return BM(a, obj) if obj is not None else a
                if o.kind == "property":
                    if obj is None:
                        return a
                    return TailCall(o.args[0], (obj,))
                if o.kind == "partial":
                    return a
        elif isinstance(a, NF) and obj is not None and a.bind:
            return BM(a, obj)
        return a

    def _getattr(self, st, v, name):
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, HInst):
                if name == "__class__":
                    return o.cls
                if name == "__dict__":
                    return st.new(HDict({k: (k, x) for k, x in
                                         o.attrs.items()}))
                a = self.find(st, o.cls, name)
                if a is not NULL and isinstance(a, Ref):
                    b = st.get(a)
                    if isinstance(b, HBox) and b.kind == "property":
                        return TailCall(b.args[0], (v,))
                if name in o.attrs:
                    return o.attrs[name]
                if a is NULL:
                    g = self.find(st, o.cls, "__getattr__")
                    if g is not NULL:
                        return TailCall(g, (v, name))
                    return NULL
                return self.bindattr(st, a, v, o.cls)
            if isinstance(o, HClass):
                if name == "__name__" or name == "__qualname__":
                    return o.name
                if name == "__module__":
                    return o.module
                if name == "__mro__":
                    return o.mro
                if name == "__bases__":
                    return o.bases
                if name == "__dict__":
                    return st.new(HDict({k: (k, x) for k, x in
                                         o.attrs.items()}))
                if name in o.meta:
                    return o.meta[name]
                a = self.find(st, v, name)
                if a is NULL:
                    if name == "__doc__":
                        return None
                    if name == "mro":
                        return NF("mro", lambda vm, s, ar, kw: s.new(
                            HList(list(o.mro))))
                    for c in o.mro:
                        # functions of builtin types
                        n = st.get(c).name
                        if self.classes.get(n) == c:
                            if (n, name) in (("dict", "fromkeys"),
                                             ("int", "from_bytes")):
                                return BM(self.prelude(
                                    st, "_%s_%s" % (n, name)), v)
                            m = self.methods.get(n, {}).get(name)
                            if m is not None:
                                return m
                    return NULL
                return self.bindattr(st, a, None, v)
            if isinstance(o, HModule):
                if name in o.attrs:
                    return o.attrs[name]
                if name == "__name__":
                    return o.name
                return NULL
            if isinstance(o, HFunc):
                if name in o.attrs:
                    return o.attrs[name]
                if name in ("__name__",):
                    return o.code.code.co_name
                if name == "__qualname__":
                    return o.qualname
                if name == "__doc__":
                    return None
                if name == "__module__":
                    return st.get(o.globals).name
                return NULL
            if isinstance(o, HArr):
                return self.np.getattr(self, st, v, o, name)
            if isinstance(o, HBox):
                if o.kind == "lru" and name in ("cache_clear", "cache_info",
                                                "__wrapped__"):
                    if name == "__wrapped__":
                        return o.args[0]
                    return NF(name, lambda vm, s, ar, kw: None)
                if o.kind == "property" and name in ("setter", "getter"):
                    ref = v
                    return NF(name, lambda vm, s, ar, kw: s.new(
                        HBox("property", (s.get(ref).args[0], ar[0]))))
                if o.kind in ("lru", "staticmethod", "classmethod"):
                    return self._getattr(st, o.args[0], name)
            n = _HNAMES.get(type(o))
            m = self.methods.get(n, {}).get(name)
            if m is not None:
                return BM(m, v)
            if name == "__class__":
                return self.class_of(st, v)
            if name == "default_factory":
                return o.default
            return NULL
        if isinstance(v, BM):
            if name == "__self__":
                return v.self
            if name == "__func__":
                return v.fn
            return self._getattr(st, v.fn, name)
        if isinstance(v, A):
            return self.np.scalar_attr(self, st, v, name)
        if isinstance(v, Choice):
            vals = []
            for k, x in v.options:
                r = self._getattr(st, x, name)
                if r is NULL:
                    return self._getattr(st, self.resolve(st, v), name)
                if isinstance(r, (BM, TailCall)):
                    return self._getattr(st, self.resolve(st, v), name)
                vals.append((k, r))
            return self.merge_choice(st, v.key, vals)
        if isinstance(v, NF):
            if name in ("__name__", "__qualname__"):
                return v.name
            c = self.classes.get(v.name)
            if c is not None:
                return self._getattr(st, c, name)
            return NULL
        if isinstance(v, SuperV):
            mro = self.mro(st, self.class_of(st, v.obj)
                           if not v.isclass else v.obj)
            if v.cls not in mro:
                return NULL
            for k in mro[mro.index(v.cls) + 1:]:
                o = st.get(k)
                if name in o.attrs:
                    return self.bindattr(
                        st, o.attrs[name], None if v.isclass else v.obj,
                        v.obj if v.isclass else self.class_of(st, v.obj))
            return NULL
        n = "bytes" if isinstance(v, bytes) else type(v).__name__
        if isinstance(v, ARange):
            n = "range"
        m = self.methods.get(n, {}).get(name)
        if m is not None:
            return BM(m, v)
        if name == "__class__":
            return self.class_of(st, v)
        if isinstance(v, (int, float)) and name in ("real",):
            return v
        if isinstance(v, (int, float)) and name == "imag":
            return 0
        if isinstance(v, slice) and name in ("start", "stop", "step"):
            return getattr(v, name)
        if isinstance(v, range) and name in ("start", "stop", "step"):
            return getattr(v, name)
        return NULL

    def setattr(self, st, v, name, val):
        if isinstance(v, Ref):
            o = st.get(v)
            if isinstance(o, HInst):
                a = self.find(st, o.cls, name)
                if isinstance(a, Ref) and isinstance(st.get(a), HBox) and \
                        st.get(a).kind == "property":
                    b = st.get(a)
                    if len(b.args) < 2 or b.args[1] is None:
                        raise self.exc(st, "AttributeError", name)
                    return TailCall(b.args[1], (v, val), ret=("drop",))
                h = self.hooks.get("setattr")
                if h:
                    h(self, st, v, name, val)
                st.mut(v).attrs[name] = val
                return
            if isinstance(o, (HClass, HModule, HFunc)):
                st.mut(v).attrs[name] = val
                return
            if isinstance(o, HArr) and name == "shape":
                st.mut(v)
                return self.np.setshape(self, st, v, val)
        if isinstance(v, Choice):
            raise Unmodelled("attribute store on a choice of objects")
        raise self.exc(st, "AttributeError", "cannot set %s" % name)

    # --------------------------------------------------------------- calls
    def call(self, st, fn, args, kw=None, ret=None):
        """Returns a value, or PUSHED when a frame was pushed."""
        kw = kw or {}
        while True:
            if isinstance(fn, BM):
                args = (fn.self,) + tuple(args)
                fn = fn.fn
                continue
            if isinstance(fn, NF):
                if kw:
                    self.check_kw(fn, kw)
                r = fn.fn(self, st, tuple(args), kw)
                if isinstance(r, TailCall):
                    if r.ret is not None:
                        if ret is not None:
                            raise Unmodelled("stacked returns")
                        ret = r.ret
                    fn, args, kw = r.fn, r.args, r.kw
                    continue
                if r is PUSHED:
                    if ret is not None:
                        st.frames[-1].ret = _chain(st.frames[-1].ret, ret)
                    return PUSHED
                return self.on_ret(st, ret, r) if ret is not None else r
            if isinstance(fn, Ref):
                o = st.get(fn)
                if isinstance(o, HFunc):
                    self.push_func(st, fn, o, args, kw, ret)
                    return PUSHED
                if isinstance(o, HClass):
                    r = self.instantiate(st, fn, args, kw)
                    if isinstance(r, TailCall):
                        fn, args, kw = r.fn, r.args, r.kw
                        ret = _chain(r.ret, ret)
                        continue
                    if r is PUSHED:
                        if ret is not None:
                            st.frames[-1].ret = _chain(st.frames[-1].ret,
                                                       ret)
                        return PUSHED
                    return self.on_ret(st, ret, r) if ret is not None else r
                if isinstance(o, HBox):
                    if o.kind == "lru":
                        for a in list(args) + list(kw.values()):
                            self.check_hashable(st, a)
                        fn = o.args[0]
                        continue
                    if o.kind == "partial":
                        f, a0, k0 = o.args
                        kw = dict(dict(k0), **kw)
                        args = tuple(a0) + tuple(args)
                        fn = f
                        continue
                    if o.kind in ("staticmethod", "classmethod"):
                        raise self.exc(st, "TypeError", "not callable")
                if isinstance(o, HInst):
                    f = self.find(st, o.cls, "__call__")
                    if f is not NULL:
                        fn = BM(f, fn)
                        continue
                raise self.exc(st, "TypeError", "%s is not callable" %
                               self.describe(st, fn))
            if isinstance(fn, Choice) and not all(
                    isinstance(x, Ref) and isinstance(st.get(x), HClass)
                    for _, x in fn.options):
                fn = self.resolve(st, fn)
                continue
            if isinstance(fn, Choice):
                inits = {self.find(st, c, "__init__")
                         for _, c in fn.options}
                news = {self.find(st, c, "__new__") for _, c in fn.options}
                if len(inits) != 1 or len(news) != 1:
                    raise Unmodelled("call of differing classes")
                inst = st.new(HInst(fn, {}))
                init = inits.pop()
                if isinstance(init, Ref):
                    fn, args = BM(init, inst), args
                    ret = _chain(("init", inst), ret)
                    continue
                return inst
            if fn is NULL or fn is None or isinstance(
                    fn, (int, str, float, tuple)):
                raise self.exc(st, "TypeError", "not callable")
            raise Unmodelled("call of %r" % (fn,))

    def check_hashable(self, st, a):
        if isinstance(a, Ref):
            o = st.get(a)
            if isinstance(o, (HList, HDict, HSet, HArr)):
                raise self.exc(st, "TypeError", "unhashable argument")
        elif isinstance(a, tuple):
            for x in a:
                self.check_hashable(st, x)

    def push_func(self, st, ref, o, args, kw, ret=None):
        code = o.code.code
        loc = self.bind_args(st, o, code, args, kw)
        f = Frame(o.code, o.globals, loc, ret=ret)
        f.func = ref
        if len(st.frames) > 400:
            raise self.exc(st, "RecursionError", "maximum recursion depth")
        st.frames.append(f)
        self.code_seen.add(o.code)

    def bind_args(self, st, o, code, args, kw):
        args = list(args)
        kw = dict(kw)
        npos = code.co_argcount
        names = code.co_varnames
        nk = code.co_kwonlyargcount
        loc = {}
        fl = code.co_flags
        name = o.qualname
        if len(args) > npos and not fl & 4:
            raise self.exc(st, "TypeError", "%s() takes %d positional "
                           "arguments but %d were given" % (
                               name, npos, len(args)))
        for i in range(npos):
            n = names[i]
            if i < len(args):
                if n in kw and not (fl & 8 and i < code.co_posonlyargcount):
                    raise self.exc(st, "TypeError", "%s() got multiple "
                                   "values for argument %s" % (name, n))
                loc[n] = args[i]
            elif n in kw and i >= code.co_posonlyargcount:
                loc[n] = kw.pop(n)
            else:
                d = o.defaults
                j = i - (npos - len(d))
                if j < 0:
                    raise self.exc(st, "TypeError", "%s() missing required "
                                   "argument %s" % (name, n))
                loc[n] = d[j]
        for i in range(npos, npos + nk):
            n = names[i]
            if n in kw:
                loc[n] = kw.pop(n)
            elif n in o.kwdefaults:
                loc[n] = o.kwdefaults[n]
            else:
                raise self.exc(st, "TypeError", "%s() missing keyword "
                               "argument %s" % (name, n))
        i = npos + nk
        if fl & 4:
            loc[names[i]] = tuple(args[npos:])
            i += 1
        if fl & 8:
            loc[names[i]] = st.new(HDict({k: (k, v) for k, v in kw.items()}))
            kw = {}
        if kw:
            raise self.exc(st, "TypeError", "%s() got an unexpected keyword "
                           "argument %s" % (name, sorted(kw)[0]))
        for n, c in zip(code.co_freevars, o.closure):
            loc[n] = c
        return loc

    def instantiate(self, st, c, args, kw):
        k = st.get(c)
        if "__members__" in k.meta and k.meta.get("enum_ready"):
            return self.enum_call(self, st, c, args, kw)
        new = self.find(st, c, "__new__")
        if isinstance(new, NF):
            r = new.fn(self, st, (c,) + tuple(args), kw)
            if isinstance(r, TailCall) or r is PUSHED:
                return r
            inst = r
            if not (isinstance(inst, Ref) and
                    isinstance(st.get(inst), HInst)):
                return inst
        elif new is NULL:
            inst = st.new(HInst(c, {}))
        else:
            raise Unmodelled("__new__ in Python")
        init = self.find(st, c, "__init__")
        if isinstance(init, NF):
            r = init.fn(self, st, (inst,) + tuple(args), kw)
            if isinstance(r, TailCall) or r is PUSHED:
                raise Unmodelled("native init with callback")
            return inst
        if init is NULL:
            if (args or kw) and new is NULL:
                raise self.exc(st, "TypeError", "%s() takes no arguments" %
                               k.name)
            return inst
        return TailCall(BM(init, inst), tuple(args), kw, ("init", inst))

    # deliver a return value according to the frame's ret marker
    def on_ret(self, st, ret, v):
        while ret is not None:
            k = ret[0]
            if k == "chain":
                v = self.on_ret(st, ret[1], v)
                ret = ret[2]
                continue
            if k == "init":
                return ret[1]
            if k == "drop":
                return None
            if k == "truth":
                return v
            if k == "not":
                return not self.truth(st, v)
            if k == "native":
                return ret[1](self, st, v, *ret[2])
            raise Unmodelled("return marker %r" % (ret,))
        return v

    # ------------------------------------------------------------ generators
    def resume_gen(self, st, ref, value, kind):
        g = st.get(ref)
        if g.state == "done":
            return "done"
        if g.state == "running":
            raise self.exc(st, "ValueError", "generator already executing")
        g = st.mut(ref)
        f = g.frame.copy()
        g.frame = None
        g.state = "running"
        f.gen = ref
        f.resume = kind
        f.stack = f.stack + (value,)
        st.frames.append(f)
        return "pushed"

    def gen_finished(self, st, f, v):
        """generator frame f (already popped) returned v"""
        g = st.mut(f.gen)
        g.state = "done"
        g.frame = None
        c = st.frames[-1] if st.frames else None
        kind = f.resume
        if kind[0] == "for":
            c.stack = c.stack[:-1]
            c.ip = kind[1]
        elif kind[0] == "send":
            c.stack = c.stack[:-1] + (v,)
            c.ip = kind[1]
        elif kind[0] == "next":
            if kind[1] is not NULL:
                c.stack = c.stack + (kind[1],)
            else:
                e = HInst(self.classes["StopIteration"],
                          {"args": (v,) if v is not None else (),
                           "value": v})
                self.throw(st, st.new(e))
        else:
            raise Unmodelled("resume kind")

    # ------------------------------------------------------------ exceptions
    def throw(self, st, exc):
        if st.frames and "__where__" not in st.get(exc).attrs:
            st.mut(exc).attrs["__where__"] = st.frames[-1].where()
        while st.frames:
            f = st.frames[-1]
            for a, b, tgt, depth, lasti in f.ci.exc:
                if a <= f.cur < b:
                    f.stack = f.stack[:depth]
                    if lasti:
                        f.stack = f.stack + (f.cur,)
                    f.stack = f.stack + (exc,)
                    f.ip = tgt
                    return
            st.frames.pop()
            if f.gen is not None:
                g = st.mut(f.gen)
                g.state = "done"
                g.frame = None
            if f.ret is not None and f.ret[0] == "thread":
                self.threads_done(st, f, exc)
                return
        st.result = ("exc", exc)

    def exc_text(self, st, exc):
        o = st.get(exc)
        return "%s(%s) raised at %s" % (
            st.get(o.cls).name, ", ".join(
                repr(a) for a in o.attrs.get("args", ())),
            o.attrs.get("__where__", "?"))

    # ------------------------------------------------------------- execution
    def run(self, st):
        """Run until a join point, a fork, or the end.
        Returns ('done', st) / ('fork', [states]) / ('join', st)."""
        ops = _DISPATCH
        while True:
            if not st.frames:
                return ("done", st)
            f = st.frames[-1]
            f.cur = f.ip
            name, arg, argval, tgt, line = f.ci.ops[f.ip]
            f.ip += 1
            stack0 = f.stack
            depth0 = len(st.frames)
            st.muts = 0
            st.cursor = 0
            st.facts0 = None
            self.insn_count += 1
            try:
                h = ops.get(name)
                if h is None:
                    raise Unmodelled("bytecode %s" % name)
                r = h(self, st, f, arg, argval, tgt)
                if st.script:
                    if st.cursor != len(st.script):
                        raise AnalysisError("a step was not replayed as it "
                                            "was taken")
                    st.script = ()
                if r == "join":
                    return ("join", st)
            except PyRaise as e:
                if st.script:
                    st.script = ()
                self.throw(st, e.value)
                if st.result is not None:
                    return ("done", st)
            except ForkNeeded as e:
                if st.muts:
                    raise Unmodelled(
                        "undecided condition after a mutation in one step "
                        "at %s" % f.where())
                f.stack = stack0
                f.ip = f.cur
                del st.frames[depth0:]
                out = []
                if st.facts0 is not None:
                    # the step is taken again: its decisions are replayed
                    st.facts = st.facts0
                    st.facts0 = None
                for o in e.options:
                    s = st.copy()
                    s.script = st.script + (o,)
                    s.nforks += 1
                    out.append(s)
                return ("fork", out)
            except Infeasible:
                return ("fork", [])
            except Unmodelled as e:
                if not getattr(e, "located", None):
                    e.located = True
                    e.args = ("%s [at %s]" % (e.args[0], " <- ".join(
                        x.where() for x in st.frames[::-1][:4])),)
                raise

    def push(self, st, v):
        """deliver value to the (new) top frame"""
        f = st.frames[-1]
        f.stack = f.stack + (v,)

    def do_call(self, st, fn, args, kw=None, ret=None):
        r = self.call(st, fn, args, kw, ret)
        if r is not PUSHED:
            if isinstance(r, TailCall):
                return self.do_call(st, r.fn, r.args, r.kw, r.ret)
            self.push(st, r)

    def deliver(self, st, r, ret=None):
        if isinstance(r, TailCall):
            self.do_call(st, r.fn, r.args, r.kw, _chain(r.ret, ret))
        elif r is not PUSHED:
            self.push(st, r if ret is None else self.on_ret(st, ret, r))

    # modules
    def import_module(self, st, name):
        mods = st.roots["modules"]
        d = st.get(mods).d
        if name in d:
            return d[name][1]
        if name in self.sources:
            return None
        if name in self.natmods:
            if "." in name:
                par = name.rsplit(".", 1)[0]
                if par in self.natmods:
                    self.import_module(st, par)
            attrs = self.natmods[name](self, st)
            if isinstance(attrs, Ref):
                return attrs
            m = st.new(HModule(name, attrs))
            st.mut(mods).d[name] = (name, m)
            if "." in name:
                par, leaf = name.rsplit(".", 1)
                pm = self.import_module(st, par)
                if isinstance(pm, Ref):
                    st.mut(pm).attrs[leaf] = m
            return m
        return NULL

    def load_source(self, st, name):
        path, text = self.sources[name]
        try:
            code = compile(text, path, "exec", dont_inherit=True)
        except SyntaxError as e:
            raise AnalysisError("cannot parse %s: %s" % (path, e))
        m = st.new(HModule(name, {
            "__name__": "__main__" if name == "__script__" else name,
            "__file__": path, "__doc__": None}))
        st.mut(st.roots["modules"]).d[name] = (name, m)
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            pm = st.get(st.roots["modules"]).d.get(par)
            if pm is not None:
                st.mut(pm[1]).attrs[leaf] = m
        f = Frame(CodeInfo.get(code), m, {}, ns=m, ret=("const", m))
        st.frames.append(f)
        return m


class SuperV:
    __slots__ = ("cls", "obj", "isclass")

    def __init__(self, cls, obj, isclass):
        self.cls, self.obj, self.isclass = cls, obj, isclass

    def __eq__(self, o):
        return isinstance(o, SuperV) and (self.cls, self.obj) == (
            o.cls, o.obj)

    def __hash__(self):
        return hash((self.cls, self.obj))


def _chain(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return ("chain", a, b)


_KWS = {}
REAL = ("numpy", "random", "heapq", "itertools", "functools", "collections",
        "math", "operator", "os", "os.path", "sys", "time", "threading",
        "queue", "subprocess", "struct", "enum", "typing", "bisect",
        "argparse", "socket", "glob", "shutil", "pickle", "re", "string",
        "contextlib", "dataclasses", "copy")


def strings_of(fn, seen, depth):
    """the string constants of a function and of those it can call;
    '**' if it passes its keywords on as they are"""
    out = set()
    if fn in seen or depth > 4 or not isinstance(fn, types.FunctionType):
        return out
    seen.add(fn)

    def code(c):
        for k in c.co_consts:
            if isinstance(k, str):
                out.add(k)
            elif isinstance(k, (tuple, frozenset)):
                out.update(x for x in k if isinstance(x, str))
            elif isinstance(k, types.CodeType):
                code(k)
        names = list(c.co_names)
        for n in names:
            if n in ("items", "update", "values", "TailCall", "push_func"):
                out.add("**")
            g = fn.__globals__.get(n)
            if isinstance(g, types.FunctionType):
                out.update(strings_of(g, seen, depth + 1))
    code(fn.__code__)
    for cell in fn.__closure__ or ():
        try:
            v = cell.cell_contents
        except ValueError:
            continue
        if isinstance(v, types.FunctionType):
            out.update(strings_of(v, seen, depth + 1))
    return out


_HNAMES = {HList: "list", HDict: "dict", HSet: "set", HClass: "type",
           HModule: "module", HFunc: "function", HGen: "generator",
           HIter: "iterator", HArr: "ndarray", HCell: "cell"}

_DISPATCH = {}


def op(*names):
    def d(fn):
        for n in names:
            _DISPATCH[n] = fn
        return fn
    return d


@op("RESUME", "NOP", "EXTENDED_ARG", "PRECALL", "SETUP_ANNOTATIONS",
    "COPY_FREE_VARS")
def _nop(vm, st, f, arg, av, tgt):
    if f.ci.ops[f.cur][0] == "SETUP_ANNOTATIONS":
        if f.ns is not None and isinstance(st.get(f.ns), HModule):
            a = st.mut(f.ns).attrs
            if "__annotations__" not in a:
                a["__annotations__"] = st.new(HDict())
        elif f.ns is not None:
            d = st.mut(f.ns).d
            if "__annotations__" not in d:
                d["__annotations__"] = ("__annotations__", st.new(HDict()))


@op("POP_TOP", "END_FOR")
def _pop(vm, st, f, arg, av, tgt):
    f.stack = f.stack[:-1]


@op("PUSH_NULL")
def _pushnull(vm, st, f, arg, av, tgt):
    f.stack = f.stack + (NULL,)


@op("LOAD_CONST")
def _const(vm, st, f, arg, av, tgt):
    f.stack = f.stack + (_conv_const(av),)


def _conv_const(v):
    if isinstance(v, frozenset):
        return tuple(sorted(v, key=repr))
    return v


@op("RETURN_CONST")
def _retconst(vm, st, f, arg, av, tgt):
    _return(vm, st, f, _conv_const(av))


@op("RETURN_VALUE")
def _ret(vm, st, f, arg, av, tgt):
    v = f.stack[-1]
    _return(vm, st, f, v)


def _return(vm, st, f, v):
    if f.gen is not None:
        st.frames.pop()
        vm.gen_finished(st, f, v)
        return
    ret = f.ret
    if ret is not None:
        if ret[0] == "const":
            v = ret[1]
        elif ret[0] == "class":
            r = vm.finish_class(vm, st, f, ret)
            st.frames.pop()
            vm.deliver(st, r)
            return
        elif ret[0] == "thread":
            st.frames.pop()
            vm.threads_done(st, f, None)
            return
        elif ret[0] == "discard":
            st.frames.pop()
            return
        else:
            v = vm.on_ret(st, ret, v)
    st.frames.pop()
    if isinstance(v, TailCall):
        vm.deliver(st, v)
        return
    if st.frames:
        g = st.frames[-1]
        g.stack = g.stack + (v,)
    else:
        st.result = ("ret", v)


@op("LOAD_FAST", "LOAD_FAST_CHECK")
def _lf(vm, st, f, arg, av, tgt):
    v = f.loc.get(av, NULL)
    if v is NULL:
        raise vm.exc(st, "UnboundLocalError", av)
    f.stack = f.stack + (v,)


@op("LOAD_CLOSURE")
def _lcl(vm, st, f, arg, av, tgt):
    f.stack = f.stack + (f.loc[av],)


@op("LOAD_FAST_AND_CLEAR")
def _lfc(vm, st, f, arg, av, tgt):
    f.stack = f.stack + (f.loc.pop(av, NULL),)


@op("STORE_FAST")
def _sf(vm, st, f, arg, av, tgt):
    v = f.stack[-1]
    f.stack = f.stack[:-1]
    if v is NULL:
        f.loc.pop(av, None)
    else:
        f.loc[av] = v


@op("DELETE_FAST")
def _df(vm, st, f, arg, av, tgt):
    f.loc.pop(av, None)


@op("MAKE_CELL")
def _mkcell(vm, st, f, arg, av, tgt):
    v = f.loc.get(av, NULL)
    if not (isinstance(v, Ref) and isinstance(st.get(v), HCell)):
        f.loc[av] = st.new(HCell(v))
    else:
        f.loc[av] = st.new(HCell(v)) if av in f.ci.code.co_varnames else v


@op("LOAD_DEREF")
def _ld(vm, st, f, arg, av, tgt):
    v = st.get(f.loc[av]).v
    if v is NULL:
        raise vm.exc(st, "NameError", av)
    f.stack = f.stack + (v,)


@op("STORE_DEREF")
def _sd(vm, st, f, arg, av, tgt):
    v = f.stack[-1]
    f.stack = f.stack[:-1]
    st.mut(f.loc[av]).v = v


@op("DELETE_DEREF")
def _dd(vm, st, f, arg, av, tgt):
    st.mut(f.loc[av]).v = NULL


def _global(vm, st, f, name):
    g = st.get(f.glob).attrs
    if name in g:
        return g[name]
    v = vm.builtins.get(name, NULL)
    if v is NULL:
        v = vm.classes.get(name, NULL)
    if v is NULL:
        if hasattr(builtins, name):
            raise Unmodelled("builtin " + name)
        raise vm.exc(st, "NameError", "name '%s' is not defined" % name)
    return v


@op("LOAD_GLOBAL")
def _lg(vm, st, f, arg, av, tgt):
    v = _global(vm, st, f, av)
    f.stack = f.stack + ((NULL, v) if arg & 1 else (v,))


def _nsget(st, f, name):
    o = st.get(f.ns)
    if isinstance(o, HModule):
        return o.attrs.get(name, NULL)
    return o.d[name][1] if name in o.d else NULL


@op("LOAD_NAME")
def _ln(vm, st, f, arg, av, tgt):
    v = _nsget(st, f, av)
    if v is NULL:
        v = _global(vm, st, f, av)
    f.stack = f.stack + (v,)


@op("STORE_NAME")
def _sn(vm, st, f, arg, av, tgt):
    v = f.stack[-1]
    o = st.mut(f.ns)
    if isinstance(o, HModule):
        o.attrs[av] = v
    else:
        o.d[av] = (av, v)
    f.stack = f.stack[:-1]


@op("DELETE_NAME")
def _dn(vm, st, f, arg, av, tgt):
    o = st.mut(f.ns)
    (o.attrs if isinstance(o, HModule) else o.d).pop(av, None)


@op("STORE_GLOBAL")
def _sg(vm, st, f, arg, av, tgt):
    st.mut(f.glob).attrs[av] = f.stack[-1]
    f.stack = f.stack[:-1]


@op("LOAD_LOCALS")
def _ll(vm, st, f, arg, av, tgt):
    f.stack = f.stack + (f.ns,)


@op("LOAD_FROM_DICT_OR_DEREF")
def _lfdd(vm, st, f, arg, av, tgt):
    d = st.get(f.stack[-1])
    f.stack = f.stack[:-1]
    dd = d.d if isinstance(d, HDict) else {}
    if av in dd:
        f.stack = f.stack + (dd[av][1],)
    else:
        _ld(vm, st, f, arg, av, tgt)


@op("LOAD_FROM_DICT_OR_GLOBALS")
def _lfdg(vm, st, f, arg, av, tgt):
    d = st.get(f.stack[-1])
    f.stack = f.stack[:-1]
    if av in d.d:
        f.stack = f.stack + (d.d[av][1],)
    else:
        f.stack = f.stack + (_global(vm, st, f, av),)


@op("BUILD_TUPLE")
def _bt(vm, st, f, arg, av, tgt):
    s = f.stack
    if arg:
        f.stack = s[:-arg] + (s[-arg:],)
    else:
        f.stack = s + ((),)


@op("BUILD_LIST")
def _bl(vm, st, f, arg, av, tgt):
    s = f.stack
    items = list(s[-arg:]) if arg else []
    f.stack = (s[:-arg] if arg else s) + (st.new(HList(items)),)


@op("BUILD_SET")
def _bs(vm, st, f, arg, av, tgt):
    s = f.stack
    items = s[-arg:] if arg else ()
    d = {}
    for i in items:
        d[vm.nkey(st, i)] = i
    f.stack = (s[:-arg] if arg else s) + (st.new(HSet(d)),)


@op("BUILD_MAP")
def _bm(vm, st, f, arg, av, tgt):
    s = f.stack
    items = s[-2 * arg:] if arg else ()
    d = {}
    for i in range(arg):
        k = items[2 * i]
        d[vm.nkey(st, k)] = (k, items[2 * i + 1])
    f.stack = (s[:-2 * arg] if arg else s) + (st.new(HDict(d)),)


@op("BUILD_CONST_KEY_MAP")
def _bckm(vm, st, f, arg, av, tgt):
    keys = f.stack[-1]
    vals = f.stack[-1 - arg:-1]
    d = {vm.nkey(st, k): (k, v) for k, v in zip(keys, vals)}
    f.stack = f.stack[:-1 - arg] + (st.new(HDict(d)),)


@op("BUILD_STRING")
def _bstr(vm, st, f, arg, av, tgt):
    s = f.stack
    f.stack = s[:-arg] + (vm.strcat(st, s[-arg:]),)


@op("BUILD_SLICE")
def _bsl(vm, st, f, arg, av, tgt):
    s = f.stack
    f.stack = s[:-arg] + (slice(*s[-arg:]),)


@op("FORMAT_VALUE")
def _fv(vm, st, f, arg, av, tgt):
    s = f.stack
    spec = ""
    if arg & 4:
        spec = s[-1]
        s = s[:-1]
    v = s[-1]
    f.stack = s[:-1]
    conv = arg & 3
    if conv == 2:
        r = vm.format(st, v, spec, repr_=True)
    else:
        r = vm.format(st, v, spec)
    vm.deliver(st, r)


@op("LIST_APPEND")
def _la(vm, st, f, arg, av, tgt):
    v = f.stack[-1]
    f.stack = f.stack[:-1]
    vm.list_append(st, f.stack[-arg], v)


@op("SET_ADD")
def _sa(vm, st, f, arg, av, tgt):
    v = f.stack[-1]
    f.stack = f.stack[:-1]
    st.mut(f.stack[-arg]).d[vm.nkey(st, v)] = v


@op("MAP_ADD")
def _ma(vm, st, f, arg, av, tgt):
    k, v = f.stack[-2:]
    f.stack = f.stack[:-2]
    st.mut(f.stack[-arg]).d[vm.nkey(st, k)] = (k, v)


@op("LIST_EXTEND")
def _le(vm, st, f, arg, av, tgt):
    v = f.stack[-1]
    f.stack = f.stack[:-1]
    lst = f.stack[-arg]
    vm.do_call(st, BM(vm.methods["list"]["extend"], lst), (v,))
    if st.frames[-1] is f:
        f.stack = f.stack[:-1]
    else:
        # extend continues in Python code; its result must be dropped
        st.frames[-1].ret = ("discard",) if st.frames[-1].ret is None else \
            _bad("extend")


def _bad(x):
    raise Unmodelled(x)


@op("SET_UPDATE")
def _su(vm, st, f, arg, av, tgt):
    v = f.stack[-1]
    f.stack = f.stack[:-1]
    items = vm.concrete_items(st, v)
    d = st.mut(f.stack[-arg]).d
    for i in items:
        d[vm.nkey(st, i)] = i


@op("DICT_UPDATE", "DICT_MERGE")
def _du(vm, st, f, arg, av, tgt):
    v = f.stack[-1]
    f.stack = f.stack[:-1]
    st.mut(f.stack[-arg]).d.update(st.get(v).d)


@op("UNPACK_SEQUENCE")
def _us(vm, st, f, arg, av, tgt):
    v = f.stack[-1]
    items = vm.unpack_items(st, v, arg)
    if items is None:
        # through Python-level iteration
        f.stack = f.stack[:-1]
        vm.do_call(st, vm.prelude(st, "_unpack"), (v, arg),
                   ret=("native", _unpack_done, ()))
        return
    if len(items) != arg:
        raise vm.exc(st, "ValueError", "cannot unpack %d values into %d" % (
            len(items), arg))
    f.stack = f.stack[:-1] + tuple(reversed(items))


class _Multi:
    pass


def _unpack_done(vm, st, v):
    # v: tuple of exact length; push all but the first here, first is pushed
    # by the return machinery
    items = tuple(reversed(v))
    # the callee frame is still on top; the caller is below it
    caller = st.frames[-2]
    caller.stack = caller.stack + items[:-1]
    return items[-1]


@op("UNPACK_EX")
def _ue(vm, st, f, arg, av, tgt):
    v = f.stack[-1]
    items = vm.unpack_items(st, v, None)
    if items is None:
        raise Unmodelled("star unpacking of an abstract sequence")
    before, after = arg & 0xff, arg >> 8
    if len(items) < before + after:
        raise vm.exc(st, "ValueError", "not enough values to unpack")
    mid = items[before:len(items) - after]
    out = list(items[:before]) + [st.new(HList(list(mid)))] + \
        list(items[len(items) - after:] if after else [])
    f.stack = f.stack[:-1] + tuple(reversed(out))


@op("BINARY_OP")
def _bo(vm, st, f, arg, av, tgt):
    a, b = f.stack[-2:]
    f.stack = f.stack[:-2]
    name = _NB[arg]
    vm.deliver(st, vm.binop(st, name, a, b))


_NB = {0: "+", 1: "&", 2: "//", 3: "<<", 4: "@", 5: "*", 6: "%", 7: "|",
       8: "**", 9: ">>", 10: "-", 11: "/", 12: "^",
       13: "+=", 14: "&=", 15: "//=", 16: "<<=", 17: "@=", 18: "*=",
       19: "%=", 20: "|=", 21: "**=", 22: ">>=", 23: "-=", 24: "/=",
       25: "^="}


@op("BINARY_SUBSCR")
def _bsub(vm, st, f, arg, av, tgt):
    a, b = f.stack[-2:]
    f.stack = f.stack[:-2]
    vm.deliver(st, vm.getitem(st, a, b))


@op("BINARY_SLICE")
def _bslice(vm, st, f, arg, av, tgt):
    a, b, c = f.stack[-3:]
    f.stack = f.stack[:-3]
    vm.deliver(st, vm.getitem(st, a, slice(b, c)))


@op("STORE_SLICE")
def _stslice(vm, st, f, arg, av, tgt):
    v, a, b, c = f.stack[-4:]
    f.stack = f.stack[:-4]
    vm.setitem(st, a, slice(b, c), v)


@op("STORE_SUBSCR")
def _ss(vm, st, f, arg, av, tgt):
    v, a, k = f.stack[-3:]
    f.stack = f.stack[:-3]
    r = vm.setitem(st, a, k, v)
    if isinstance(r, TailCall):
        vm.do_call(st, r.fn, r.args, r.kw)
        if st.frames[-1] is f:
            f.stack = f.stack[:-1]
        else:
            st.frames[-1].ret = ("discard",)


@op("DELETE_SUBSCR")
def _dsub(vm, st, f, arg, av, tgt):
    a, k = f.stack[-2:]
    f.stack = f.stack[:-2]
    vm.delitem(st, a, k)


@op("UNARY_NEGATIVE")
def _un(vm, st, f, arg, av, tgt):
    v = f.stack[-1]
    f.stack = f.stack[:-1]
    vm.deliver(st, vm.unop(st, "-", v))


@op("UNARY_INVERT")
def _ui(vm, st, f, arg, av, tgt):
    v = f.stack[-1]
    f.stack = f.stack[:-1]
    vm.deliver(st, vm.unop(st, "~", v))


@op("UNARY_NOT")
def _unot(vm, st, f, arg, av, tgt):
    v = f.stack[-1]
    r = _truth_or_call(vm, st, f, v)
    if r is None:
        return
    f.stack = f.stack[:-1] + (not r,)


def _truth_or_call(vm, st, f, v):
    """truth of the top of the stack; None when a Python-level method was
    called whose result then replaces it before the instruction is redone"""
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, HInst):
            m = vm.find(st, o.cls, "__bool__")
            if m is NULL:
                m = vm.find(st, o.cls, "__len__")
            if isinstance(m, Ref):
                f.stack = f.stack[:-1]
                f.ip = f.cur
                vm.do_call(st, BM(m, v), ())
                return None
    return vm.truth(st, v)


@op("COMPARE_OP")
def _cmp(vm, st, f, arg, av, tgt):
    a, b = f.stack[-2:]
    f.stack = f.stack[:-2]
    vm.deliver(st, vm.compare(st, av, a, b))


@op("IS_OP")
def _is(vm, st, f, arg, av, tgt):
    a, b = f.stack[-2:]
    r = vm.is_(st, a, b)
    f.stack = f.stack[:-2] + ((not r) if arg else r,)


@op("CONTAINS_OP")
def _contains(vm, st, f, arg, av, tgt):
    a, b = f.stack[-2:]
    f.stack = f.stack[:-2]
    r = vm.contains(st, b, a)
    if isinstance(r, TailCall):
        vm.do_call(st, r.fn, r.args, r.kw,
                   ("not",) if arg else ("truth",))
        return
    if arg:
        r = (not r) if isinstance(r, bool) else A("bool", terms.t_not(r.m))
    f.stack = f.stack + (r,)


@op("LOAD_ATTR")
def _lattr(vm, st, f, arg, av, tgt):
    v = f.stack[-1]
    f.stack = f.stack[:-1]
    r = vm.getattr(st, v, av)
    if arg & 1:
        f.stack = f.stack + (NULL,)
    vm.deliver(st, r)


@op("LOAD_SUPER_ATTR")
def _lsa(vm, st, f, arg, av, tgt):
    sup, c, self_ = f.stack[-3:]
    f.stack = f.stack[:-3]
    isclass = isinstance(self_, Ref) and isinstance(st.get(self_), HClass)
    r = vm.getattr(st, SuperV(c, self_, isclass), av)
    if arg & 1:
        f.stack = f.stack + (NULL,)
    vm.deliver(st, r)


@op("STORE_ATTR")
def _sattr(vm, st, f, arg, av, tgt):
    v, o = f.stack[-2:]
    f.stack = f.stack[:-2]
    r = vm.setattr(st, o, av, v)
    if isinstance(r, TailCall):
        vm.do_call(st, r.fn, r.args, r.kw)
        if st.frames[-1] is not f:
            st.frames[-1].ret = ("discard",)
        else:
            f.stack = f.stack[:-1]


@op("DELETE_ATTR")
def _dattr(vm, st, f, arg, av, tgt):
    o = f.stack[-1]
    f.stack = f.stack[:-1]
    st.mut(o).attrs.pop(av, None)


@op("KW_NAMES")
def _kwn(vm, st, f, arg, av, tgt):
    f.kwnames = f.ci.code.co_consts[arg]


@op("CALL")
def _call(vm, st, f, arg, av, tgt):
    kwn = f.kwnames
    # KW_NAMES precedes CALL: it must survive a re-execution of CALL
    args = f.stack[-arg:] if arg else ()
    m, c = (f.stack[-arg - 2], f.stack[-arg - 1])
    rest = f.stack[:-arg - 2]
    if m is not NULL:
        fn = m
        args = (c,) + args
    else:
        fn = c
    kw = {}
    if kwn:
        n = len(kwn)
        kw = dict(zip(kwn, args[-n:]))
        args = args[:-n]
    f.stack = rest
    r = vm.call(st, fn, args, kw)
    f.kwnames = ()
    vm.deliver(st, r)


@op("CALL_FUNCTION_EX")
def _cfe(vm, st, f, arg, av, tgt):
    s = f.stack
    kw = {}
    if arg & 1:
        kw = {k: v for k, v in st.get(s[-1]).d.values()}
        s = s[:-1]
    args = vm.unpack_items(st, s[-1], None)
    if args is None:
        raise Unmodelled("call with an abstract argument list")
    fn = s[-2]
    f.stack = s[:-3]
    r = vm.call(st, fn, tuple(args), kw)
    vm.deliver(st, r)


@op("CALL_INTRINSIC_1")
def _ci1(vm, st, f, arg, av, tgt):
    v = f.stack[-1]
    if arg == 3:  # STOPITERATION_ERROR
        if vm.isinst(st, v, vm.classes["StopIteration"]):
            e = vm.exc(st, "RuntimeError", "generator raised StopIteration")
            f.stack = f.stack[:-1] + (e.value,)
        return
    if arg == 6:  # LIST_TO_TUPLE
        o = st.get(v)
        f.stack = f.stack[:-1] + (tuple(o.items),)
        return
    if arg == 5:  # UNARY_POSITIVE
        return
    raise Unmodelled("intrinsic %d" % arg)


@op("MAKE_FUNCTION")
def _mf(vm, st, f, arg, av, tgt):
    s = f.stack
    code = s[-1]
    s = s[:-1]
    closure, ann, kwd, dfl = (), None, {}, ()
    if arg & 8:
        closure = s[-1]
        s = s[:-1]
    if arg & 4:
        s = s[:-1]
    if arg & 2:
        kwd = {k: v for k, v in st.get(s[-1]).d.values()}
        s = s[:-1]
    if arg & 1:
        dfl = s[-1]
        s = s[:-1]
    fn = HFunc(CodeInfo.get(code), f.glob, dfl, kwd, closure, {},
               code.co_qualname)
    f.stack = s + (st.new(fn),)


@op("LOAD_BUILD_CLASS")
def _lbc(vm, st, f, arg, av, tgt):
    f.stack = f.stack + (vm.builtins["__build_class__"],)


@op("LOAD_ASSERTION_ERROR")
def _lae(vm, st, f, arg, av, tgt):
    f.stack = f.stack + (vm.classes["AssertionError"],)


@op("RAISE_VARARGS")
def _raise(vm, st, f, arg, av, tgt):
    if arg == 0:
        # re-raise the exception being handled
        for g in reversed(st.frames):
            for v in reversed(g.stack):
                if isinstance(v, _Handling):
                    raise PyRaise(v.exc)
        raise vm.exc(st, "RuntimeError", "No active exception to reraise")
    v = f.stack[-1] if arg == 1 else f.stack[-2]
    if isinstance(v, Ref) and isinstance(st.get(v), HClass):
        f.stack = f.stack[:-arg]
        r = vm.call(st, v, (), {}, ("native", _raise_ret, ()))
        return
    if not (isinstance(v, Ref) and isinstance(st.get(v), HInst)):
        raise vm.exc(st, "TypeError",
                     "exceptions must derive from BaseException")
    raise PyRaise(v)


def _raise_ret(vm, st, v):
    raise PyRaise(v)


class _Handling:
    """the 'previous exception' slot pushed by PUSH_EXC_INFO, remembering the
    exception now being handled"""
    __slots__ = ("exc",)

    def __init__(self, exc):
        self.exc = exc

    def __eq__(self, o):
        return isinstance(o, _Handling) and o.exc == self.exc

    def __hash__(self):
        return hash(self.exc)


@op("PUSH_EXC_INFO")
def _pei(vm, st, f, arg, av, tgt):
    e = f.stack[-1]
    f.stack = f.stack[:-1] + (_Handling(e), e)


@op("POP_EXCEPT")
def _pe(vm, st, f, arg, av, tgt):
    f.stack = f.stack[:-1]


@op("CHECK_EXC_MATCH")
def _cem(vm, st, f, arg, av, tgt):
    e, c = f.stack[-2:]
    f.stack = f.stack[:-1] + (vm.is_exc_match(st, e, c),)


@op("RERAISE")
def _rer(vm, st, f, arg, av, tgt):
    raise PyRaise(f.stack[-1])


@op("WITH_EXCEPT_START")
def _wes(vm, st, f, arg, av, tgt):
    e = f.stack[-1]
    ex = f.stack[-4]
    vm.deliver(st, vm.call(st, ex, (st.get(e).cls, e, None)))


@op("BEFORE_WITH")
def _bw(vm, st, f, arg, av, tgt):
    m = f.stack[-1]
    en = vm.getattr(st, m, "__enter__")
    ex = vm.getattr(st, m, "__exit__")
    f.stack = f.stack[:-1] + (ex,)
    vm.deliver(st, vm.call(st, en, ()))


@op("RETURN_GENERATOR")
def _rg(vm, st, f, arg, av, tgt):
    st.frames.pop()
    g = st.new(HGen(f, "suspended", f.ci.qualname))
    ret = f.ret
    f.ret = None
    if ret is not None:
        g = vm.on_ret(st, ret, g)
    if st.frames:
        vm.push(st, g)
    else:
        st.result = ("ret", g)


@op("YIELD_VALUE")
def _yield(vm, st, f, arg, av, tgt):
    v = f.stack[-1]
    h = vm.hooks.get("yield")
    f.stack = f.stack[:-1]
    st.frames.pop()
    g = st.mut(f.gen)
    kind = f.resume
    f.resume = None
    f.gen = None
    g.frame = f
    g.state = "suspended"
    c = st.frames[-1]
    if kind[0] == "send":
        c.stack = c.stack[:-1] + (v,)
    else:
        c.stack = c.stack + (v,)


@op("SEND")
def _send(vm, st, f, arg, av, tgt):
    g, v = f.stack[-2:]
    o = st.get(g)
    if isinstance(o, HGen):
        f.stack = f.stack[:-1]
        # on yield the value replaces v: keep a slot for it
        r = vm.resume_gen(st, g, v, ("send", tgt))
        if r == "done":
            f.stack = f.stack + (None,)
            f.ip = tgt
        else:
            f.stack = f.stack + (None,)
        return
    # plain iterator
    r = vm.iter_next(st, g)
    if isinstance(r, TailCall):
        raise Unmodelled("yield from a Python-level iterator")
    if r is NULL:
        f.stack = f.stack[:-1] + (None,)
        f.ip = tgt
    else:
        f.stack = f.stack[:-1] + (r,)


@op("END_SEND")
def _es(vm, st, f, arg, av, tgt):
    f.stack = f.stack[:-2] + (f.stack[-1],)


@op("CLEANUP_THROW")
def _ct(vm, st, f, arg, av, tgt):
    e = f.stack[-1]
    if vm.isinst(st, e, vm.classes["StopIteration"]):
        f.stack = f.stack[:-3] + (None, st.get(e).attrs.get("value"))
        return
    raise PyRaise(e)


@op("GET_ITER")
def _gi(vm, st, f, arg, av, tgt):
    v = f.stack[-1]
    f.stack = f.stack[:-1]
    vm.deliver(st, vm.get_iter(st, v))


@op("GET_YIELD_FROM_ITER")
def _gyfi(vm, st, f, arg, av, tgt):
    _gi(vm, st, f, arg, av, tgt)


@op("FOR_ITER")
def _fi(vm, st, f, arg, av, tgt):
    it = f.stack[-1]
    o = st.get(it)
    # tgt is END_FOR; skip it
    end = tgt + 1
    if isinstance(o, HGen):
        r = vm.resume_gen(st, it, None, ("for", end))
        if r == "done":
            f.stack = f.stack[:-1]
            f.ip = end
        return
    if isinstance(o, HInst):
        m = vm.getattr(st, it, "__next__")
        raise Unmodelled("for over a Python-level iterator class")
    r = vm.iter_next(st, it)
    if r is NULL:
        f.stack = f.stack[:-1]
        f.ip = end
    else:
        f.stack = f.stack + (r,)


@op("JUMP_FORWARD")
def _jf(vm, st, f, arg, av, tgt):
    f.ip = tgt


@op("JUMP_BACKWARD")
def _jb(vm, st, f, arg, av, tgt):
    f.ip = tgt
    name = f.ci.ops[tgt][0]
    if name == "FOR_ITER":
        it = st.get(f.stack[-1])
        if isinstance(it, HIter) and vm.iter_concrete(st, it):
            return
        if isinstance(it, HIter) and it.kind in ("abs", "arange", "arr") \
                and len(f.stack) > 1 and isinstance(f.stack[-2], Ref) and \
                isinstance(st.get(f.stack[-2]), HList):
            # a comprehension over an unknown number of elements
            vm.abstract_list(st, f.stack[-2])
    # deterministic loops are unrolled
    lf = f.lastfork
    if lf is None:
        lf = f.lastfork = {}
    last = lf.get(tgt)
    if last is None:
        lf[tgt] = (st.nforks, 0)
        if vm.eager and st.nforks:
            forget_appended(vm, st, f, tgt)
            return "join"
        return None
    if last[0] == st.nforks and last[1] < vm.unroll:
        lf[tgt] = (st.nforks, last[1] + 1)
        return
    if last[0] == -1 and st.nforks == 0 and last[1] < 5000:
        # joined before, but nothing was decided since
        lf[tgt] = (-1, last[1] + 1)
        return
    lf[tgt] = (st.nforks, 0)
    forget_appended(vm, st, f, tgt)
    return "join"


_APPENDS = {}


def forget_appended(vm, st, f, tgt):
    """abstract the lists that a loop over an unknown number of elements,
    without any decision of its own, appends to"""
    if not vm.summarise or f.ci.ops[tgt][0] != "FOR_ITER":
        return
    it = f.stack[-1]
    k = (f.ci, tgt)
    names = _APPENDS.get(k)
    if names is None:
        names = []
        body = f.ci.ops[tgt + 1:f.cur]
        if any("JUMP" in b[0] or b[0].startswith(
                ("RETURN", "FOR_ITER", "END_FOR")) for b in body):
            body = []
        for a, b in zip(body, body[1:]):
            if a[0].startswith("LOAD_FAST") and b[0] in (
                    "LOAD_ATTR", "LOAD_METHOD") and "append" in str(b[2]):
                names.append(a[2])
        if any(b[0] == "LIST_APPEND" for b in body):
            names.append(None)
        _APPENDS[k] = names
    for n in names:
        v = f.loc.get(n) if n is not None else \
            f.stack[-2] if len(f.stack) > 1 else None
        if isinstance(v, Ref) and isinstance(st.get(v), HList):
            vm.abstract_list(st, v)


@op("JUMP_BACKWARD_NO_INTERRUPT")
def _jbn(vm, st, f, arg, av, tgt):
    f.ip = tgt


@op("POP_JUMP_IF_FALSE")
def _pjf(vm, st, f, arg, av, tgt):
    r = _truth_or_call(vm, st, f, f.stack[-1])
    if r is None:
        return
    f.stack = f.stack[:-1]
    if not r:
        if tgt <= f.cur:
            return _backjump(vm, st, f, tgt)
        f.ip = tgt


@op("POP_JUMP_IF_TRUE")
def _pjt(vm, st, f, arg, av, tgt):
    r = _truth_or_call(vm, st, f, f.stack[-1])
    if r is None:
        return
    f.stack = f.stack[:-1]
    if r:
        if tgt <= f.cur:
            return _backjump(vm, st, f, tgt)
        f.ip = tgt


def _backjump(vm, st, f, tgt):
    return _jb(vm, st, f, 0, 0, tgt)


@op("POP_JUMP_IF_NONE")
def _pjn(vm, st, f, arg, av, tgt):
    v = f.stack[-1]
    r = vm.is_(st, v, None)
    f.stack = f.stack[:-1]
    if r:
        if tgt <= f.cur:
            return _backjump(vm, st, f, tgt)
        f.ip = tgt


@op("POP_JUMP_IF_NOT_NONE")
def _pjnn(vm, st, f, arg, av, tgt):
    v = f.stack[-1]
    r = vm.is_(st, v, None)
    f.stack = f.stack[:-1]
    if not r:
        if tgt <= f.cur:
            return _backjump(vm, st, f, tgt)
        f.ip = tgt


@op("SWAP")
def _swap(vm, st, f, arg, av, tgt):
    s = list(f.stack)
    s[-1], s[-arg] = s[-arg], s[-1]
    f.stack = tuple(s)


@op("COPY")
def _copy(vm, st, f, arg, av, tgt):
    f.stack = f.stack + (f.stack[-arg],)


@op("IMPORT_NAME")
def _imp(vm, st, f, arg, av, tgt):
    fromlist = f.stack[-1]
    if st.cursor == 0 and fromlist == "__done__":
        pass
    name = av
    parts = name.split(".")
    for k in range(1, len(parts) + 1):
        pre = ".".join(parts[:k])
        m = vm.import_module(st, pre)
        if m is NULL:
            raise vm.exc(st, "ModuleNotFoundError", pre)
        if m is None:
            # run the module body, then redo this instruction
            vm.load_source(st, pre)
            st.frames[-1].ret = ("discard",)
            f.ip = f.cur
            return
    f.stack = f.stack[:-2]
    if not fromlist and "." in name:
        m = vm.import_module(st, name.split(".")[0])
    f.stack = f.stack + (m,)


@op("IMPORT_FROM")
def _impf(vm, st, f, arg, av, tgt):
    m = f.stack[-1]
    v = vm._getattr(st, m, av)
    if v is NULL:
        full = "%s.%s" % (st.get(m).name, av)
        sub = vm.import_module(st, full)
        if sub is None:
            vm.load_source(st, full)
            st.frames[-1].ret = ("discard",)
            f.ip = f.cur
            return
        if sub is NULL:
            raise vm.exc(st, "ImportError", "cannot import name %s" % av)
        v = sub
    f.stack = f.stack + (v,)
