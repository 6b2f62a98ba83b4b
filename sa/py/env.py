"""Library surroundings of the analysed modules: native models of small
standard-library pieces, and stub modules written in Python (interpreted by the
same abstract interpreter)."""

import math

from sa.report import AnalysisError
from . import terms
from .terms import T, Infeasible
from .state import (A, Ref, NF, BM, HList, HDict, HSet, HInst, HClass,
                    HModule, HFunc, HBox, HArr, CodeInfo, Frame, PyRaise)
from .interp import NULL, TailCall, PUSHED, Unmodelled, mkA
from .builtins_ import num_of, const_str, to_str

STUBS = {}

STUBS["typing"] = '''
class _Form:
    def __getitem__(self, k):
        return self
    def __call__(self, *a, **k):
        return self
    def __or__(self, o):
        return self
    def __ror__(self, o):
        return self
_f = _Form()
Any = Callable = ClassVar = Final = List = Dict = Tuple = Set = FrozenSet = _f
Iterator = Iterable = Generator = Sequence = Mapping = MutableMapping = _f
Type = Union = Optional = Literal = Text = TextIO = BinaryIO = IO = _f
NoReturn = Collection = Deque = DefaultDict = Counter = Hashable = _f
MutableSequence = AnyStr = Awaitable = Annotated = Sized = Container = _f
OrderedDict = ContextManager = ByteString = SupportsInt = SupportsFloat = _f
AbstractSet = Reversible = NamedTupleMeta = Self = TypeAlias = _f
TYPE_CHECKING = False
class Generic:
    def __class_getitem__(cls, k):
        return cls
class Protocol:
    def __class_getitem__(cls, k):
        return cls
def TypeVar(*a, **k):
    return _f
def NewType(name, t):
    return t
def cast(t, v):
    return v
def overload(f):
    return f
def final(f):
    return f
def no_type_check(f):
    return f
def runtime_checkable(f):
    return f
def get_type_hints(f):
    return {}
class NamedTuple:
    __namedtuple__ = True
'''

STUBS["__future__"] = '''
annotations = division = print_function = generators = None
absolute_import = unicode_literals = with_statement = None
'''

STUBS["abc"] = '''
class ABC:
    pass
ABCMeta = type
def abstractmethod(f):
    return f
abstractproperty = property
'''

STUBS["collections"] = '''
from __native__ import defaultdict
OrderedDict = dict
class deque:
    def __init__(self, it=(), maxlen=None):
        self._l = list(it)
        self.maxlen = maxlen
        if maxlen is not None:
            while len(self._l) > maxlen:
                self._l.pop(0)
    def append(self, x):
        self._l.append(x)
        if self.maxlen is not None and len(self._l) > self.maxlen:
            self._l.pop(0)
    def appendleft(self, x):
        self._l.insert(0, x)
    def extend(self, it):
        for x in it:
            self.append(x)
    def pop(self):
        return self._l.pop()
    def popleft(self):
        return self._l.pop(0)
    def clear(self):
        self._l.clear()
    def rotate(self, n=1):
        for _ in range(n):
            self._l.insert(0, self._l.pop())
    def __len__(self):
        return len(self._l)
    def __bool__(self):
        return len(self._l) > 0
    def __iter__(self):
        return iter(self._l)
    def __getitem__(self, i):
        return self._l[i]
    def __setitem__(self, i, v):
        self._l[i] = v
def namedtuple(name, fields, defaults=(), **kw):
    from __native__ import make_namedtuple
    if isinstance(fields, str):
        fields = fields.replace(",", " ").split()
    return make_namedtuple(name, tuple(fields), tuple(defaults or ()))
class Counter:
    def __init__(self, it=()):
        self._d = {}
        for x in it:
            self._d[x] = self._d.get(x, 0) + 1
    def __getitem__(self, k):
        return self._d.get(k, 0)
    def __setitem__(self, k, v):
        self._d[k] = v
    def items(self):
        return self._d.items()
'''
STUBS["collections.abc"] = STUBS["typing"]

STUBS["itertools"] = '''
from __native__ import chain, islice, count, repeat, cycle, takewhile, product
def zip_longest(*its, fillvalue=None):
    its = [iter(i) for i in its]
    n = len(its)
    live = [True] * n
    while True:
        out = []
        for i in range(n):
            if live[i]:
                try:
                    v = next(its[i])
                except StopIteration:
                    live[i] = False
                    v = fillvalue
            else:
                v = fillvalue
            out.append(v)
        if True not in live:
            return
        yield tuple(out)
def accumulate(it, func=None, initial=None):
    tot = initial
    first = True
    if initial is not None:
        yield tot
        first = False
    for x in it:
        if first:
            tot = x
            first = False
        elif func is None:
            tot = tot + x
        else:
            tot = func(tot, x)
        yield tot
def dropwhile(p, it):
    drop = True
    for x in it:
        if drop and p(x):
            continue
        drop = False
        yield x
def starmap(f, it):
    for a in it:
        yield f(*a)
def filterfalse(p, it):
    for x in it:
        if not p(x):
            yield x
def pairwise(it):
    it = iter(it)
    try:
        a = next(it)
    except StopIteration:
        return
    for b in it:
        yield a, b
        a = b
def tee(it, n=2):
    l = list(it)
    return tuple(iter(list(l)) for _ in range(n))
def permutations(it, r=None):
    pool = tuple(it)
    if r is None:
        r = len(pool)
    if r == 0:
        yield ()
        return
    for i in range(len(pool)):
        for rest in permutations(pool[:i] + pool[i + 1:], r - 1):
            yield (pool[i],) + rest
def combinations(it, r):
    pool = tuple(it)
    if r == 0:
        yield ()
        return
    for i in range(len(pool)):
        for rest in combinations(pool[i + 1:], r - 1):
            yield (pool[i],) + rest
'''

STUBS["heapq"] = '''
def _down(h, start, pos):
    x = h[pos]
    while pos > start:
        parent = (pos - 1) >> 1
        if not x < h[parent]:
            break
        h[pos] = h[parent]
        pos = parent
    h[pos] = x
def _up(h, pos):
    end = len(h)
    start = pos
    x = h[pos]
    child = 2 * pos + 1
    while child < end:
        right = child + 1
        if right < end and not h[child] < h[right]:
            child = right
        h[pos] = h[child]
        pos = child
        child = 2 * pos + 1
    h[pos] = x
    _down(h, start, pos)
def heappush(h, x):
    __heap_add__(h, x)
    if not __is_abs__(h):
        _down(h, 0, len(h) - 1)
def heappop(h):
    if not h:
        raise IndexError("index out of range")
    if __is_abs__(h):
        return h.pop()
    last = h.pop()
    if h:
        m = h[0]
        h[0] = last
        _up(h, 0)
        return m
    return last
def heapify(h):
    if not __is_abs__(h):
        for i in range(len(h) // 2 - 1, -1, -1):
            _up(h, i)
def heappushpop(h, x):
    heappush(h, x)
    return heappop(h)
def heapreplace(h, x):
    m = heappop(h)
    heappush(h, x)
    return m
def nsmallest(n, it, key=None):
    return sorted(it, key=key)[:n]
def nlargest(n, it, key=None):
    return sorted(it, key=key, reverse=True)[:n]
def merge(*its):
    return iter(sorted([x for i in its for x in i]))
'''

STUBS["contextlib"] = '''
from __native__ import _CM
def contextmanager(f):
    def make(*a, **k):
        return _CM(f(*a, **k))
    return make
class suppress:
    def __init__(self, *exc):
        self._exc = exc
    def __enter__(self):
        return self
    def __exit__(self, t, v, tb):
        return t is not None and isinstance(v, self._exc)
class closing:
    def __init__(self, x):
        self._x = x
    def __enter__(self):
        return self._x
    def __exit__(self, t, v, tb):
        self._x.close()
        return False
class nullcontext:
    def __init__(self, x=None):
        self._x = x
    def __enter__(self):
        return self._x
    def __exit__(self, t, v, tb):
        return False
class ExitStack:
    def __init__(self):
        self._cbs = []
    def __enter__(self):
        return self
    def enter_context(self, cm):
        v = cm.__enter__()
        self._cbs.append(cm)
        return v
    def callback(self, f, *a, **k):
        class _C:
            def __exit__(s, t, v, tb):
                f(*a, **k)
                return False
        self._cbs.append(_C())
    def __exit__(self, t, v, tb):
        r = False
        while self._cbs:
            cm = self._cbs.pop()
            if cm.__exit__(t, v, tb):
                r = True
        return r
'''

STUBS["dataclasses"] = '''
from __native__ import make_dataclass_in_place
class _Field:
    def __init__(self, default, default_factory):
        self.default = default
        self.default_factory = default_factory
        self.__isfield__ = True
_MISSING = object()
def field(default=_MISSING, default_factory=None, **kw):
    return _Field(default, default_factory)
def dataclass(c=None, **kw):
    if c is None:
        return lambda k: make_dataclass_in_place(k)
    return make_dataclass_in_place(c)
def replace(o, **kw):
    d = dict(o.__dict__)
    d.update(kw)
    return o.__class__(**d)
def asdict(o):
    return dict(o.__dict__)
'''

STUBS["copy"] = '''
from __native__ import copy, deepcopy
'''

STUBS["time"] = '''
def time():
    return __any_float__("time", 0.0, None)
def monotonic():
    return __any_float__("time", 0.0, None)
def perf_counter():
    return __any_float__("time", 0.0, None)
def sleep(s):
    return None
def strftime(*a):
    return __any_str__("strftime")
def process_time():
    return __any_float__("time", 0.0, None)
'''

STUBS["logging"] = '''
class _L:
    def debug(self, *a, **k): pass
    def info(self, *a, **k): pass
    def warning(self, *a, **k): pass
    def error(self, *a, **k): pass
    def exception(self, *a, **k): pass
    def critical(self, *a, **k): pass
    def setLevel(self, *a): pass
    def addHandler(self, *a): pass
    def isEnabledFor(self, *a): return False
_root = _L()
debug = info = warning = error = exception = critical = _root.info
def getLogger(*a):
    return _root
def basicConfig(**k):
    pass
DEBUG, INFO, WARNING, ERROR, CRITICAL = 10, 20, 30, 40, 50
'''
STUBS["warnings"] = '''
def warn(*a, **k):
    pass
def filterwarnings(*a, **k):
    pass
def simplefilter(*a, **k):
    pass
'''
STUBS["traceback"] = '''
def print_exc(*a, **k):
    pass
def format_exc(*a, **k):
    return ""
'''
STUBS["gc"] = '''
def collect(*a): return 0
def disable(): pass
def enable(): pass
'''
STUBS["unittest"] = '''
class TestCase: pass
def main(): pass
'''
STUBS["etaprogress"] = "\n"
STUBS["etaprogress.progress"] = '''
class ProgressBar:
    def __init__(self, *a, **k):
        self.numerator = 0
    def __str__(self):
        return ""
'''
STUBS["argparse"] = '''
class Namespace:
    pass
class Action:
    def __init__(self, names, kw):
        self.names = names
        self.kw = kw
        self.dest = kw.get("dest")
        if self.dest is None:
            d = names[0]
            for n in names:
                if n.startswith("--"):
                    d = n
                    break
            self.dest = d.lstrip("-").replace("-", "_")
        self.flag = names[0].startswith("-")
        self.action = kw.get("action", "store")
        self.default = kw.get("default")
        self.seen = False
        if self.action == "store_true" and self.default is None:
            self.default = False
        if self.action == "store_false" and self.default is None:
            self.default = True
    def convert(self, v, parser):
        t = self.kw.get("type")
        if t is not None:
            try:
                v = t(v)
            except (ValueError, TypeError, ArgumentTypeError):
                parser.error("invalid value of " + self.dest)
        elif not isinstance(v, str):
            v = str(v)
        c = self.kw.get("choices")
        if c is not None and v not in c:
            parser.error("invalid choice for " + self.dest)
        return v
class ArgumentParser:
    def __init__(self, *a, **k):
        self._opts = []
        self._defaults = {}
        self.exit_on_error = True
    def add_argument(self, *names, **kw):
        o = Action(names, kw)
        self._opts.append(o)
        return o
    def add_mutually_exclusive_group(self, **k):
        return self
    def add_argument_group(self, *a, **k):
        return self
    def set_defaults(self, **k):
        self._defaults.update(k)
    def error(self, msg):
        raise SystemExit(2)
    def print_help(self, *a):
        pass
    print_usage = print_help
    def parse_args(self, args=None, namespace=None):
        import sys
        if args is None:
            args = sys.argv[1:]
        ns = Namespace() if namespace is None else namespace
        for o in self._opts:
            d = self._defaults.get(o.dest, o.default)
            t = o.kw.get("type")
            if isinstance(d, str) and t is not None:
                d = t(d)
            setattr(ns, o.dest, d)
        todo = [o for o in self._opts if not o.flag]
        given = []
        args = list(args)
        while args:
            a = args.pop(0)
            if __known__(a) and isinstance(a, str) and a.startswith(
                    "-") and len(a) > 1:
                name, eq, v = a.partition("=")
                o = [x for x in self._opts if name in x.names]
                if not o and name.startswith("--"):
                    o = [x for x in self._opts
                         if [n for n in x.names if n.startswith(name)]]
                if len(o) != 1:
                    self.error("unrecognized arguments")
                o = o[0]
                given.append(o)
                if o.action == "store_true":
                    setattr(ns, o.dest, True)
                elif o.action == "store_false":
                    setattr(ns, o.dest, False)
                elif o.action == "store_const":
                    setattr(ns, o.dest, o.kw.get("const"))
                elif o.kw.get("nargs") not in (None, "?"):
                    n = o.kw["nargs"]
                    vs = []
                    while args and not (isinstance(args[0], str) and
                                        args[0].startswith("-")) and (
                            not isinstance(n, int) or len(vs) < n):
                        vs.append(o.convert(args.pop(0), self))
                    setattr(ns, o.dest, vs)
                else:
                    if not eq:
                        if not args:
                            self.error("expected one argument")
                        v = args.pop(0)
                    setattr(ns, o.dest, o.convert(v, self))
            else:
                if not todo:
                    self.error("unrecognized arguments")
                o = todo[0]
                if o.kw.get("nargs") in ("*", "+"):
                    old = getattr(ns, o.dest) if o in given else []
                    setattr(ns, o.dest, old + [o.convert(a, self)])
                else:
                    todo.pop(0)
                    setattr(ns, o.dest, o.convert(a, self))
                given.append(o)
        for o in self._opts:
            if o not in given and (
                    o.kw.get("required") or
                    not o.flag and o.kw.get("nargs") not in ("?", "*")):
                self.error("arguments are required")
        return ns
class ArgumentTypeError(Exception):
    pass
class ArgumentDefaultsHelpFormatter:
    pass
class RawDescriptionHelpFormatter:
    pass
'''


def fresh_num(st, name, lo, hi, sort):
    t = terms.sym(name, sort)
    if lo is not None or hi is not None:
        st.facts.iv[t] = (-terms.INF if lo is None else lo,
                          terms.INF if hi is None else hi, 1, 0)
    return t


def install(vm):
    B = vm.builtins

    def nf(name, fn, where=None):
        (B if where is None else where)[name] = NF(name, fn, bind=False)

    # ---- harness primitives (available to stub and harness modules)
    def any_int(vm, st, a, kw):
        return mkA("int", fresh_num(st, a[0], a[1], a[2], "int"))
    nf("__any_int__", any_int)

    def any_float(vm, st, a, kw):
        return A("float", fresh_num(st, a[0], a[1], a[2], "float"))
    nf("__any_float__", any_float)

    def any_str(vm, st, a, kw):
        return A("str", terms.sym(a[0], "str"))
    nf("__any_str__", any_str)

    def any_bool(vm, st, a, kw):
        return st.choose((True, False))
    nf("__any_bool__", any_bool)

    def any_obj(vm, st, a, kw):
        return A("object", terms.sym(a[0], "obj"))
    nf("__any_obj__", any_obj)

    def choose(vm, st, a, kw):
        return st.choose(tuple(range(a[0])))
    nf("__choose__", choose)

    def assume(vm, st, a, kw):
        if not vm.truth(st, a[0]):
            raise Infeasible()
        return None
    nf("__assume__", assume)

    def known(vm, st, a, kw):
        v = a[0]
        if isinstance(v, A) and isinstance(v.m, T):
            return st.facts.known(v.m)
        return vm.truth(st, v)
    nf("__known__", known)

    def is_abs(vm, st, a, kw):
        return st.get(a[0]).abs is not None
    nf("__is_abs__", is_abs)

    def heap_add(vm, st, a, kw):
        vm.list_append(st, a[0], a[1])
        out = []
        from .containers import walk_terms
        walk_terms(a[1], out)
        if out and not vm.sparse:
            vm.abstract_list(st, a[0])
    nf("__heap_add__", heap_add)

    def proved(vm, st, a, kw):
        """is the condition surely true?  (no case distinction)"""
        v = a[0]
        if isinstance(v, A) and isinstance(v.m, T):
            return st.facts.known(v.m) is True
        return v is True
    nf("__proved__", proved)

    def check(vm, st, a, kw):
        cond, rule = a[0], a[1]
        text = a[2] if len(a) > 2 else ""
        ok = vm.truth(st, cond)
        vm.on_obligation(st, ok, rule, text)
        if not ok:
            raise Infeasible()
        return None
    nf("__check__", check)

    def event(vm, st, a, kw):
        h = vm.hooks.get("event")
        if h:
            return h(vm, st, a)
        return None
    nf("__event__", event)

    def where(vm, st, a, kw):
        for f in reversed(st.frames):
            fn = f.ci.code.co_filename
            if not fn.startswith("<"):
                return "%s:%s" % (fn, f.ci.code.co_name)
        return "?"
    nf("__where__", where)

    def is_const(vm, st, a, kw):
        v = a[0]
        if isinstance(v, A) and isinstance(v.m, T):
            return st.facts.const(v.m) is not None
        return not isinstance(v, Ref)
    nf("__is_const__", is_const)

    def stop(vm, st, a, kw):
        raise Infeasible()
    nf("__stop__", stop)

    def array(vm, st, a, kw):
        name, shape, dt, lo, hi = (tuple(a) + (None, None))[:5]
        return vm.np.fresh_array(st, name, tuple(
            x.m if isinstance(x, A) else x for x in shape), dt, lo, hi)
    nf("__array__", array)

    def bound(vm, st, a, kw):
        """assume that all elements of an array are within bounds"""
        from .npmodel import CAtom, CPred
        store = st.get(st.get(a[0]).store)
        c = store.content
        b = c.base if isinstance(c, CPred) else c
        if isinstance(b, CAtom):
            lo = a[1] if b.lo is None else max(b.lo, a[1])
            hi = a[2] if b.hi is None else min(b.hi, a[2])
            b = CAtom(b.name, b.dtype, lo, hi)
            st.mut(st.get(a[0]).store).content = \
                CPred(b, c.preds) if isinstance(c, CPred) else b
        return None
    nf("__bound__", bound)

    def throw_into(vm, st, a, kw):
        g, exc = a
        r = vm.resume_gen(st, g, None, ("next", NULL))
        if r == "done":
            raise PyRaise(exc)
        f = st.frames[-1]
        f.stack = f.stack[:-1]
        f.cur = f.ip - 1
        raise PyRaise(exc)
    nf("__throw_into__", throw_into)

    nf("open", lambda vm, st, a, kw: TailCall(
        vm.getattr(st, need(vm, st, "__fs__"), "open"), a, kw))

    # ---- native modules
    def mod(name):
        d = {}

        def build(vm_, st):
            return dict(d)
        vm.natmods[name] = build
        return d

    N = mod("__native__")

    def defaultdict(vm, st, a, kw):
        d = {}
        if len(a) > 1:
            o = st.get(a[1])
            if not isinstance(o, HDict):
                raise Unmodelled("defaultdict initialiser")
            d = dict(o.d)
        return st.new(HDict(d, default=a[0] if a else None))
    nf("defaultdict", defaultdict, N)

    for pn in ("_islice", "_count", "_repeat", "_cycle", "_takewhile",
               "_product"):
        def mk(pn):
            return lambda vm, st, a, kw: TailCall(
                vm.prelude(st, pn), a, kw)
        nf(pn[1:], mk(pn), N)
    chain = NF("chain", lambda vm, st, a, kw: TailCall(
        vm.prelude(st, "_chain"), a, kw), False)

    def build_native(vm_, st):
        d = dict(N)
        c = st.new(HClass("chain", (vm.cls("object"),), (), {}, "itertools"))
        st.mut(c).mro = (c, vm.cls("object"))
        st.mut(c).attrs["__new__"] = NF("__new__", lambda vm, s, a, kw:
                                        TailCall(vm.prelude(s, "_chain"),
                                                 a[1:], kw))
        st.mut(c).attrs["from_iterable"] = NF(
            "from_iterable", lambda vm, s, a, kw: TailCall(
                vm.prelude(s, "_chain1"), a, kw), False)
        d["chain"] = c
        d["_CM"] = vm.prelude(st, "_CM")
        return d
    vm.natmods["__native__"] = build_native

    def make_namedtuple(vm, st, a, kw):
        name, fields, defaults = a
        src = ["class %s(_NT):" % name, "    _fields = %r" % (fields,)]
        n0 = len(fields) - len(defaults)
        params = ", ".join(f if i < n0 else "%s=_d[%d]" % (f, i - n0)
                           for i, f in enumerate(fields))
        src.append("    def __init__(self, %s):" % params)
        for f in fields:
            src.append("        self.%s = %s" % (f, f))
        if not fields:
            src.append("        pass")
        src.append("    def __iter__(self):")
        src.append("        return iter((%s))" % "".join(
            "self.%s, " % f for f in fields))
        src.append("    def __getitem__(self, i):")
        src.append("        return (%s)[i]" % "".join(
            "self.%s, " % f for f in fields))
        src.append("    def __len__(self):\n        return %d" % len(fields))
        src.append("    def _replace(self, **kw):")
        src.append("        return %s(%s)" % (name, ", ".join(
            "kw.get(%r, self.%s)" % (f, f) for f in fields)))
        src.append("    def _asdict(self):")
        src.append("        return {%s}" % ", ".join(
            "%r: self.%s" % (f, f) for f in fields))
        src.append("    def __eq__(self, o):")
        src.append("        return tuple(self) == tuple(o)")
        src.append("    def __lt__(self, o):")
        src.append("        return tuple(self) < tuple(o)")
        code = compile("class _NT: pass\n" + "\n".join(src), "<namedtuple>",
                       "exec", dont_inherit=True)
        m = st.new(HModule("<namedtuple>", {"__name__": "<namedtuple>",
                                            "_d": defaults}))
        f = Frame(CodeInfo.get(code), m, {}, ns=m, ret=(
            "native", lambda vm, s, v: s.get(m).attrs[name], ()))
        st.frames.append(f)
        return PUSHED
    nf("make_namedtuple", make_namedtuple, N)

    def make_dataclass(vm, st, a, kw):
        c = a[0]
        o = st.get(c)
        ann = {}
        for k in reversed(o.mro):
            x = st.get(k).attrs.get("__annotations__")
            if isinstance(x, Ref) and isinstance(st.get(x), HDict):
                for kk, _ in st.get(x).d.values():
                    ann[kk] = k
        defaults = {}
        ps, body = [], []
        for n in ann:
            v = vm.find(st, c, n)
            if v is NULL:
                ps.append(n)
                body.append("    self.%s = %s" % (n, n))
                continue
            if isinstance(v, Ref) and isinstance(st.get(v), HInst) and \
                    "__isfield__" in st.get(v).attrs:
                fac = st.get(v).attrs["default_factory"]
                if fac is not None:
                    defaults["_f_" + n] = fac
                    ps.append("%s=None" % n)
                    body.append("    self.%s = _f_%s() if %s is None else %s"
                                % (n, n, n, n))
                    continue
                v = st.get(v).attrs["default"]
            defaults["_d_" + n] = v
            ps.append("%s=_d_%s" % (n, n))
            body.append("    self.%s = %s" % (n, n))
        src = "def __init__(self, %s):\n%s\n" % (
            ", ".join(ps), "\n".join(body) or "    pass")
        if vm.find(st, c, "__post_init__") is not NULL:
            src += "    self.__post_init__()\n"
        tup = lambda s: "(%s)" % "".join("%s.%s, " % (s, n) for n in ann)
        src += ("def __eq__(self, o):\n    if o.__class__ is not "
                "self.__class__:\n        return NotImplemented\n"
                "    return %s == %s\n" % (tup("self"), tup("o")))
        code = compile(src, "<dataclass>", "exec", dont_inherit=True)
        m = st.new(HModule("<dataclass>", dict(
            defaults, __name__="<dataclass>")))

        def done(vm, s, v):
            k = s.mut(c)
            for n in ("__init__", "__eq__"):
                if n == "__init__" or n not in k.attrs:
                    k.attrs[n] = s.get(m).attrs[n]
            return c
        st.frames.append(Frame(CodeInfo.get(code), m, {}, ns=m,
                               ret=("native", done, ())))
        return PUSHED
    nf("make_dataclass_in_place", make_dataclass, N)

    def cp(vm, st, a, kw):
        return shallow(vm, st, a[0])
    nf("copy", cp, N)
    nf("deepcopy", lambda vm, st, a, kw: deep(vm, st, a[0], {}), N)

    # functools
    F = mod("functools")

    def lru(vm, st, a, kw):
        if a and isinstance(a[0], Ref) and isinstance(st.get(a[0]), HFunc):
            return st.new(HBox("lru", (a[0],)))
        return NF("lru_cache_decorator", lambda vm, s, b, k: s.new(
            HBox("lru", (b[0],))), False)
    nf("lru_cache", lru, F)
    nf("cache", lru, F)
    nf("cached_property", lambda vm, st, a, kw: st.new(
        HBox("property", tuple(a))), F)
    nf("partial", lambda vm, st, a, kw: st.new(HBox("partial", (
        a[0], tuple(a[1:]), tuple(kw.items())))), F)
    nf("reduce", lambda vm, st, a, kw: TailCall(
        vm.prelude(st, "reduce"), a, kw), F)
    nf("wraps", lambda vm, st, a, kw: NF(
        "wraps", lambda vm, s, b, k: b[0], False), F)
    nf("total_ordering", lambda vm, st, a, kw: a[0], F)

    # operator
    O = mod("operator")
    for n, o in (("add", "+"), ("sub", "-"), ("mul", "*"), ("and_", "&"),
                 ("or_", "|"), ("xor", "^"), ("lshift", "<<"),
                 ("rshift", ">>"), ("mod", "%"), ("floordiv", "//"),
                 ("truediv", "/")):
        nf(n, (lambda o: lambda vm, st, a, kw: vm.binop(
            st, o, a[0], a[1]))(o), O)
    for n, o in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="),
                 ("gt", ">"), ("ge", ">=")):
        nf(n, (lambda o: lambda vm, st, a, kw: vm.compare(
            st, o, a[0], a[1]))(o), O)

    def itemgetter(vm, st, a, kw):
        ks = tuple(a)

        def g(vm, s, b, k):
            rs = [vm.getitem(s, b[0], x) for x in ks]
            if any(isinstance(r, TailCall) for r in rs):
                if len(rs) == 1:
                    return rs[0]
                raise Unmodelled("itemgetter")
            return rs[0] if len(rs) == 1 else tuple(rs)
        return NF("itemgetter", g, False)
    nf("itemgetter", itemgetter, O)

    def attrgetter(vm, st, a, kw):
        n = a[0]
        return NF("attrgetter", lambda vm, s, b, k: vm.getattr(s, b[0], n),
                  False)
    nf("attrgetter", attrgetter, O)

    # math
    M = mod("math")
    M.update(pi=math.pi, e=math.e, inf=math.inf, nan=math.nan, tau=math.tau)

    def mfun(name, op=None, rint=False):
        hf = getattr(math, name)

        def g(vm, st, a, kw):
            ns = [num_of(vm, st, x) for x in a]
            if any(n is None for n in ns):
                raise vm.exc(st, "TypeError", "must be real number")
            ms = [n[1] for n in ns]
            if not any(isinstance(m, T) for m in ms):
                try:
                    return hf(*ms)
                except (ValueError, OverflowError) as e:
                    raise vm.exc(st, type(e).__name__, str(e))
            if op in ("floor", "ceil", "trunc"):
                m = ms[0]
                if m.sort == "int":
                    return mkA("int", m)
                if op == "trunc":
                    return vm.call(st, vm.classes["int"], (a[0],))
                t = terms.t_round(op, m)
                return mkA("int", t)
            if name in ("isnan", "isinf", "isfinite"):
                if ms[0].sort == "int":
                    return name == "isfinite"
                return A("bool", terms.mk(name, (ms[0],), "bool"))
            return A("float", terms.mk("m_" + name, tuple(
                m if isinstance(m, T) else m for m in ms), "float"))
        nf(name, g, M)
    for n in ("floor", "ceil", "trunc"):
        mfun(n, n)
    for n in ("sqrt", "sin", "cos", "tan", "exp", "log", "log2", "log10",
              "pow", "isnan", "isinf", "isfinite", "fabs", "hypot", "gcd",
              "atan2", "copysign", "fmod", "radians", "degrees"):
        mfun(n)

    # random
    R = mod("random")

    def rnd(vm, st, a, kw):
        return A("float", fresh_num(st, "rnd", 0.0, 1.0, "float"))

    def randint(vm, st, a, kw):
        lo, hi = num_of(vm, st, a[0])[1], num_of(vm, st, a[1])[1]
        if isinstance(lo, T) or isinstance(hi, T):
            lo2, hi2 = st.facts.rng(lo)[0] if isinstance(lo, T) else lo, \
                st.facts.rng(hi)[1] if isinstance(hi, T) else hi
            t = fresh_num(st, "rnd", lo2, hi2, "int")
            for c in (terms.t_le0(terms.sub(lo, t)),
                      terms.t_le0(terms.sub(t, hi))):
                if isinstance(c, T):
                    st.facts.assume(c, True)
            return mkA("int", t)
        if lo > hi:
            raise vm.exc(st, "ValueError", "empty range")
        return mkA("int", fresh_num(st, "rnd", lo, hi, "int"))

    def rfuncs():
        d = {}
        nf("random", rnd, d)
        nf("uniform", lambda vm, st, a, kw: A("float", fresh_num(
            st, "rnd", None, None, "float")), d)
        nf("randint", randint, d)
        nf("randrange", lambda vm, st, a, kw: randint(
            vm, st, (0, vm.binop(st, "-", a[0], 1)) if len(a) == 1 else
            (a[0], vm.binop(st, "-", a[1], 1)), kw), d)
        nf("getrandbits", lambda vm, st, a, kw: randint(
            vm, st, (0, (1 << a[0]) - 1), kw), d)
        nf("seed", lambda vm, st, a, kw: None, d)
        nf("shuffle", lambda vm, st, a, kw: None, d)

        def rchoice(vm, st, a, kw):
            n = vm.length(st, a[0])
            n = num_of(vm, st, n)[1]
            if n == 0:
                raise vm.exc(st, "IndexError", "empty sequence")
            i = fresh_num(st, "rnd", 0, None, "int")
            st.facts.assume(terms.t_le0(terms.add(terms.sub(i, n), 1)), True)
            return vm.getitem(st, a[0], mkA("int", i))
        nf("choice", rchoice, d)
        return d
    R.update(rfuncs())

    def build_random(vm_, st):
        d = dict(R)
        rf = rfuncs()
        d["Random"] = NF("Random", lambda vm, s, a, kw: s.new(
            HInst(vm.cls("object"), dict(rf))), False)
        d["SystemRandom"] = d["Random"]
        return d
    vm.natmods["random"] = build_random

    # enum
    def build_enum(vm_, st):
        E = vm.cls("Enum")
        d = {"Enum": E}

        def sub(name, bases, meta):
            c = st.new(HClass(name, tuple(bases), (), {}, "enum",
                              dict(meta)))
            o = st.mut(c)
            o.mro = (c,) + tuple(bases) + (vm.cls("object"),)
            if meta.get("intenum"):
                o.mro = (c, vm.cls("int"), E, vm.cls("object"))
            else:
                o.mro = (c, E, vm.cls("object"))
            o.meta["__members__"] = st.new(HDict())
            o.meta["enum_ready"] = False
            o.attrs["__new__"] = vm.boot.get(E).attrs["__new__"]
            d[name] = c
        sub("IntEnum", [E], {"intenum": True})
        sub("Flag", [E], {"flag": True})
        sub("IntFlag", [E], {"intenum": True, "flag": True})
        nf("unique", unique, d)
        nf("auto", lambda vm, s, a, kw: s.new(
            HInst(vm.cls("object"), {"__auto__": True})), d)
        d["EnumMeta"] = d["EnumType"] = vm.cls("type")
        return d

    def unique(vm, st, a, kw):
        c = a[0]
        d = st.get(st.get(c).meta["__members__"]).d
        if len({m for _, m in d.values()}) != len(d):
            raise vm.exc(st, "ValueError", "duplicate values found")
        return c
    vm.natmods["enum"] = build_enum

    # sys
    def build_sys(vm_, st):
        d = {"argv": st.new(HList(["prog"])), "maxsize": 2 ** 63 - 1,
             "path": st.new(HList([])), "version_info": (3, 12, 0),
             "platform": "linux", "byteorder": "little",
             "modules": st.roots["modules"]}
        null = {}
        for n in ("write", "flush", "close"):
            nf(n, lambda vm, s, a, kw: None, null)
        for n in ("stdout", "stderr", "stdin"):
            d[n] = st.new(HInst(vm.cls("object"), dict(null)))

        def ex(vm, s, a, kw):
            raise vm.exc(s, "SystemExit", *a)
        nf("exit", ex, d)
        nf("setrecursionlimit", lambda vm, s, a, kw: None, d)
        nf("getsizeof", lambda vm, s, a, kw: 0, d)

        def exc_info(vm, s, a, kw):
            return (None, None, None)
        nf("exc_info", exc_info, d)
        return d
    vm.natmods["sys"] = build_sys

    def need(vm, st, name):
        m = vm.import_module(st, name)
        if not isinstance(m, Ref):
            raise Unmodelled("no environment module %s loaded" % name)
        return m

    # text helpers shared by os.path stubs
    def splitext(vm, st, a, kw):
        s = a[0]
        if isinstance(s, str):
            import os.path
            return os.path.splitext(s)
        h = vm.hooks.get("splitext")
        if h:
            r = h(vm, st, s)
            if r is not None:
                return r
        raise Unmodelled("splitext of %r" % (s,))
    nf("splitext", splitext, N)

    def pathfn(name):
        import os.path
        hf = getattr(os.path, name)

        def g(vm, st, a, kw):
            if all(isinstance(x, str) for x in a):
                return hf(*a)
            h = vm.hooks.get("pathfn")
            if h:
                r = h(vm, st, name, a)
                if r is not None:
                    return r
            if name == "join":
                return join_path(vm, st, a)
            raise Unmodelled("os.path.%s of %r" % (name, a))
        nf("path_" + name, g, N)
    for n in ("basename", "dirname", "join", "split", "abspath", "normpath"):
        pathfn(n)

    def join_path(vm, st, a):
        out = a[0]
        for x in a[1:]:
            out = vm.strcat(st, [out, "/", x])
        return out

    from .libs import LIBS
    for n, src in list(STUBS.items()) + list(LIBS.items()):
        if n not in vm.sources:
            vm.sources[n] = ("<%s>" % n, src)
    vm.on_obligation = lambda st, ok, rule, text: None


def shallow(vm, st, v):
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, (HList, HDict, HSet, HInst)):
            if isinstance(o, HInst) and vm.class_of(st, v) in (
                    vm.cls("Enum"),) + tuple(
                    x for x in vm.mro(st, o.cls) if x == vm.cls("Enum")):
                return v
            return st.new(o.copy())
        if isinstance(o, HArr):
            return vm.np.copy(vm, st, v)
    return v


def deep(vm, st, v, memo):
    if isinstance(v, tuple):
        return tuple(deep(vm, st, x, memo) for x in v)
    if not isinstance(v, Ref):
        return v
    if v in memo:
        return memo[v]
    o = st.get(v)
    if isinstance(o, HArr):
        r = vm.np.copy(vm, st, v)
        memo[v] = r
        return r
    if isinstance(o, HInst) and vm.issub(st, o.cls, vm.cls("Enum")):
        return v
    if not isinstance(o, (HList, HDict, HSet, HInst)):
        return v
    if isinstance(o, HList) and o.abs is not None:
        raise Unmodelled("deepcopy of an abstract list")
    n = o.copy()
    r = st.new(n)
    memo[v] = r
    if isinstance(n, HList):
        n.items = [deep(vm, st, x, memo) for x in n.items]
    elif isinstance(n, (HDict, HSet)):
        n.d = {k: (tuple(deep(vm, st, y, memo) for y in x)
                   if isinstance(x, tuple) else deep(vm, st, x, memo))
               for k, x in n.d.items()}
    else:
        n.attrs = {k: deep(vm, st, x, memo) for k, x in n.attrs.items()}
    return r
