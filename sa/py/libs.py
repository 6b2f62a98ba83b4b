"""Interpreted stand-ins for libraries with an outside effect.  Each records or
bounds what the real library may do; `__event__` reports effects to the
check that is running."""

LIBS = {}

LIBS["py65"] = ""
LIBS["py65.devices"] = ""
LIBS["py65.disassembler"] = '''
class Disassembler:
    def __init__(self, mpu, address_parser=None):
        self._mpu = mpu
    def instruction_at(self, pc):
        return 1, "???"
'''
LIBS["py65.devices.mpu65c02"] = '''
class MPU:
    def __init__(self, memory=None, pc=0):
        self.memory = memory
        self.start_pc = pc
        self.processorCycles = 0
        self.reset()
    def reset(self):
        self.pc = self.start_pc
        self.sp = 0xff
        self.a = 0
        self.x = 0
        self.y = 0
        self.p = 0x30
        self.processorCycles = 0
    def __str__(self):
        return "\\n"
    def step(self):
        self.pc = __any_int__("pc", 0, 0xffff)
        self.processorCycles = __any_int__("cycles", 0, None)
        return self
'''
LIBS["py65.devices.mpu6502"] = LIBS["py65.devices.mpu65c02"]

# Subscribers are kept as address ranges.  A cell nobody wrote reads as a fresh
# byte; writes are kept (most recent first) so that reads see them.
LIBS["py65.memory"] = '''
LOG = []
def _compact(r):
    if isinstance(r, range):
        return r
    r = list(r)
    for i in range(1, len(r)):
        if r[i] != r[0] + i:
            return r
    return range(r[0], r[0] + len(r)) if r else r
class ObservableMemory:
    def __init__(self, subject=None, addrWidth=16):
        self.physMask = 0xffff
        self._rd = []
        self._wr = []
        self.cells = {}
        self.last = None
    def poke(self, address, value):
        self.last = (address, value)
    def _calls(self, subs, address):
        out = []
        for rng, cb in subs:
            if address in rng:
                dup = False
                for o in out:
                    if o == cb:
                        dup = True
                if not dup:
                    out.append(cb)
        return out
    def __setitem__(self, address, value):
        if isinstance(address, slice):
            for n, v in zip(range(*address.indices(self.physMask + 1)),
                            value):
                self[n] = v
            return
        address = address & self.physMask
        for cb in self._calls(self._wr, address):
            r = cb(address, value)
            if r is not None:
                value = r
        LOG.append((self, "w", address, value))
        self.last = (address, value)
        if __is_const__(address):
            self.cells[address] = value
        else:
            self.cells.clear()
    def __getitem__(self, address):
        if isinstance(address, slice):
            return [self[n] for n in
                    range(*address.indices(self.physMask + 1))]
        address = address & self.physMask
        final = None
        for cb in self._calls(self._rd, address):
            r = cb(address)
            if r is not None:
                final = r
        if final is None:
            last = self.last
            if last is not None and __known__(address == last[0]):
                final = last[1]
            elif __is_const__(address) and address in self.cells:
                final = self.cells[address]
            else:
                final = __any_int__("mem", 0, 255)
            LOG.append((self, "r", address, final))
        return final
    def subscribe_to_write(self, address_range, callback):
        self._wr.append((_compact(address_range), callback))
    def subscribe_to_read(self, address_range, callback):
        self._rd.append((_compact(address_range), callback))
    def write(self, start_address, bytes):
        LOG.append((self, "b", start_address & self.physMask, bytes))
        __event__("memory.write", start_address, bytes)
'''

LIBS["os"] = '''
import os.path as path
sep = "/"
environ = {}
devnull = "/dev/null"
def makedirs(name, mode=0o777, exist_ok=False):
    import __fs__
    return __fs__.makedirs(name, exist_ok)
def mkdir(name, mode=0o777):
    import __fs__
    return __fs__.makedirs(name, False)
def stat(p):
    import __fs__
    return __fs__.stat(p)
def remove(p):
    import __fs__
    return __fs__.remove(p)
unlink = remove
def rename(a, b):
    import __fs__
    return __fs__.rename(a, b)
replace = rename
def getcwd():
    return "/cwd"
def getpid():
    return __any_int__("pid", 1, None)
def cpu_count():
    return __any_int__("cpus", 1, 1024)
def listdir(p="."):
    import __fs__
    return __fs__.listdir(p)
fspath = str
'''
LIBS["os.path"] = '''
import __native__
def join(*a):
    return __native__.path_join(*a)
def dirname(p):
    return __native__.path_dirname(p)
def basename(p):
    return __native__.path_basename(p)
def split(p):
    return dirname(p), basename(p)
def splitext(p):
    return __native__.splitext(p)
def abspath(p):
    return p
realpath = normpath = expanduser = abspath
def exists(p):
    import __fs__
    try:
        __fs__.stat(p)
    except OSError:
        return False
    return True
isfile = lexists = exists
def isdir(p):
    return exists(p)
def getsize(p):
    return __any_int__("filesize", 0, None)
'''
LIBS["io"] = '''
class BytesIO:
    def __init__(self, b=b""):
        self.b = b
    def read(self):
        return self.b
class StringIO:
    def __init__(self, s=""):
        self.s = s
    def read(self):
        return self.s
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return False
def open(*a, **k):
    import __fs__
    return __fs__.open(*a, **k)
'''
LIBS["pathlib"] = '''
import os.path
class Path:
    def __init__(self, *a):
        self.p = os.path.join(*[str(x) for x in a]) if len(a) > 1 else str(a[0])
    def __str__(self):
        return self.p
    __fspath__ = __str__
    def __truediv__(self, o):
        return Path(self.p, o)
    def with_suffix(self, s):
        return Path(os.path.splitext(self.p)[0] + s)
    @property
    def suffix(self):
        return os.path.splitext(self.p)[1]
    @property
    def stem(self):
        return os.path.splitext(os.path.basename(self.p))[0]
    @property
    def name(self):
        return os.path.basename(self.p)
    @property
    def parent(self):
        return Path(os.path.dirname(self.p))
    def exists(self):
        return os.path.exists(self.p)
    is_file = exists
    def stat(self):
        return os.stat(self.p)
    def unlink(self, missing_ok=False):
        import os
        os.remove(self.p)
    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        import os
        os.makedirs(self.p, exist_ok=exist_ok)
    def open(self, mode="r", *a, **k):
        import __fs__
        return __fs__.open(self.p, mode)
    def read_bytes(self):
        with self.open("rb") as f:
            return f.read()
    def read_text(self, *a, **k):
        with self.open("r") as f:
            return f.read()
PurePath = PosixPath = Path
'''
LIBS["shutil"] = '''
def which(n):
    return None
def move(a, b):
    import __fs__
    __fs__.rename(a, b)
def rmtree(p, ignore_errors=False):
    import __fs__
    __fs__.remove(p)
def copyfileobj(a, b, n=0):
    b.write(a.read())
'''
LIBS["tempfile"] = '''
def mkdtemp(*a, **k):
    return "/tmp/tmpdir"
'''

LIBS["socketserver"] = '''
class BaseRequestHandler:
    def __init__(self, request, client_address, server):
        self.request = request
        self.client_address = client_address
        self.server = server
        self.setup()
        try:
            self.handle()
        finally:
            self.finish()
    def setup(self):
        pass
    def handle(self):
        pass
    def finish(self):
        pass
class _WFile:
    def __init__(self, s):
        self.s = s
    def write(self, b):
        self.s.sendall(b)
        return len(b)
    def flush(self):
        pass
class StreamRequestHandler(BaseRequestHandler):
    def setup(self):
        self.connection = self.request
        self.wfile = _WFile(self.request)
class BaseServer:
    allow_reuse_address = False
    def __init__(self, server_address, handler, bind_and_activate=True):
        self.server_address = server_address
        self.RequestHandlerClass = handler
        self.state = []
        __srv__ = self
        if bind_and_activate:
            self.server_bind()
            self.server_activate()
    def server_bind(self):
        self.state.append(("bind", self.server_address,
                           self.allow_reuse_address))
    def server_activate(self):
        self.state.append(("listen",))
    def serve_forever(self, poll_interval=0.5):
        import __net__
        __net__.serve(self)
    def handle_request(self):
        import __net__
        __net__.serve_once(self)
    def shutdown(self):
        pass
    def server_close(self):
        self.state.append(("close",))
    def finish_request(self, request, client_address):
        self.RequestHandlerClass(request, client_address, self)
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.server_close()
        return False
class TCPServer(BaseServer):
    threaded = False
class ThreadingMixIn:
    threaded = True
    daemon_threads = False
class ThreadingTCPServer(ThreadingMixIn, TCPServer):
    threaded = True
'''

LIBS["subprocess"] = '''
PIPE = -1
STDOUT = -2
DEVNULL = -3
class SubprocessError(Exception):
    pass
class CalledProcessError(SubprocessError):
    def __init__(self, returncode, cmd, output=None, stderr=None):
        self.returncode = returncode
        self.cmd = cmd
class TimeoutExpired(SubprocessError):
    pass
class CompletedProcess:
    def __init__(self, args, returncode):
        self.args = args
        self.returncode = returncode
        self.stdout = b""
        self.stderr = b""
    def check_returncode(self):
        if self.returncode:
            raise CalledProcessError(self.returncode, self.args)
def call(args, **k):
    import __proc__
    return __proc__.run(args)
def check_call(args, **k):
    import __proc__
    rc = __proc__.run(args)
    if rc:
        raise CalledProcessError(rc, args)
    return 0
def check_output(args, **k):
    check_call(args)
    return b""
def run(args, check=False, **k):
    import __proc__
    rc = __proc__.run(args)
    if check and rc:
        raise CalledProcessError(rc, args)
    return CompletedProcess(args, rc)
class Popen:
    def __init__(self, args, **k):
        import __proc__
        self.args = args
        self.returncode = __proc__.run(args)
    def wait(self, timeout=None):
        return self.returncode
    def communicate(self, *a, **k):
        return b"", b""
    def poll(self):
        return self.returncode
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return False
'''

LIBS["PIL"] = ""
LIBS["PIL.Image"] = '''
LANCZOS = 1
BICUBIC = 3
BILINEAR = 2
NEAREST = 0
ANTIALIAS = 1
class Resampling:
    LANCZOS = 1
    BICUBIC = 3
class Image:
    def __init__(self, src, size=None):
        self.src = src
        self.size = size
    def resize(self, size, resample=None, **k):
        __event__("resize", size)
        return Image(self.src, size)
    def convert(self, mode):
        return Image(self.src, self.size)
    def save(self, p, *a, **k):
        import __fs__
        __fs__.write_image(p, self)
def fromarray(a, mode=None):
    return Image(a)
'''
LIBS["skvideo"] = ""
LIBS["skvideo.io"] = '''
class FFmpegReader:
    def __init__(self, filename, *a, **k):
        self.filename = filename
    def nextFrame(self):
        import __media__
        yield from __media__.frames(self.filename)
    def close(self):
        pass
def ffprobe(filename):
    import __media__
    return __media__.probe(filename)
'''
LIBS["audioread"] = '''
class DecodeError(Exception):
    pass
class NoBackendError(DecodeError):
    pass
def audio_open(path, backends=None):
    import __media__
    return __media__.audio_open(path)
'''
LIBS["librosa"] = '''
import librosa.core as core
def to_mono(y):
    import __media__
    return __media__.to_mono(y)
def resample(y=None, orig_sr=None, target_sr=None, *, res_type="x",
             scale=False, fix=True, **k):
    import __media__
    return __media__.resample(y, orig_sr, target_sr)
'''
LIBS["librosa.core"] = '''
def to_mono(y):
    import __media__
    return __media__.to_mono(y)
def resample(y=None, orig_sr=None, target_sr=None, *, res_type="x",
             scale=False, fix=True, **k):
    import __media__
    return __media__.resample(y, orig_sr, target_sr)
'''
LIBS["colormath"] = ""
LIBS["colormath.color_objects"] = '''
class sRGBColor:
    def __init__(self, rgb_r, rgb_g, rgb_b, observer="2", illuminant="d65",
                 is_upscaled=False):
        self.is_upscaled = is_upscaled
        self.raw = (rgb_r, rgb_g, rgb_b)
        if is_upscaled:
            self.rgb_r = rgb_r / 255.0
            self.rgb_g = rgb_g / 255.0
            self.rgb_b = rgb_b / 255.0
        else:
            self.rgb_r = rgb_r
            self.rgb_g = rgb_g
            self.rgb_b = rgb_b
    def get_value_tuple(self):
        return (self.rgb_r, self.rgb_g, self.rgb_b)
    def get_upscaled_value_tuple(self):
        if self.is_upscaled:
            return self.raw
        return tuple(int(0.5 + v * 255) for v in self.raw)
class LabColor:
    def __init__(self, rgb=None):
        self.rgb = rgb
class XYZColor:
    pass
class AdobeRGBColor:
    pass
class BaseRGBColor:
    pass
'''
LIBS["colormath.color_conversions"] = '''
from colormath.color_objects import LabColor
def convert_color(c, target, *a, **k):
    return LabColor(c)
'''
LIBS["colormath.color_diff"] = '''
def delta_e_cie2000(a, b, *k, **kw):
    return __any_float__("deltaE", 0.0, 200.0)
delta_e_cie1976 = delta_e_cie1994 = delta_e_cie2000
'''
LIBS["weighted_levenshtein"] = '''
def dam_lev(a, b, **k):
    return __any_float__("damlev", 0.0, 10000.0)
lev = osa = dam_lev
'''

for _n in ("bz2", "gzip", "lzma"):
    LIBS[_n] = '''
def open(p, mode="rb", *a, **k):
    import __fs__
    return __fs__.open(p, mode)
def compress(b, *a):
    return ("compressed", b)
def decompress(b):
    return b[1]
'''
LIBS["bz2"] += '''
BZ2File = open
'''
LIBS["pickle"] = '''
HIGHEST_PROTOCOL = 5
def dump(o, f, *a, **k):
    f.write(("pickled", o))
def load(f, *a, **k):
    return f.read()[1]
def dumps(o, *a, **k):
    return ("pickled", o)
def loads(b, *a, **k):
    return b[1]
'''

# Threads are modelled by running a thread's whole target at one of the two
# extreme points: when it is started, or when somebody waits for it.
LIBS["threading"] = '''
MODE = {"lazy": None}
PENDING = []
UNCAUGHT = []
BLOCKED = []
class _Main:
    name = "MainThread"
    ident = 1
    daemon = False
    def is_alive(self):
        return True
_CUR = [_Main()]
def current_thread():
    return _CUR[-1]
def main_thread():
    return _CUR[0]
def get_ident():
    return _CUR[-1].ident
excepthook = None
def run_pending():
    ran = False
    while PENDING:
        PENDING.pop(-1 if len(PENDING) > 1 and __choose__(2) else 0)._go()
        ran = True
    return ran
class Thread:
    def __init__(self, group=None, target=None, name=None, args=(),
                 kwargs=None, *, daemon=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs if kwargs is not None else {}
        self.name = name if name is not None else "Thread"
        self.daemon = bool(daemon)
        self.ident = None
        self._st = 0
    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)
    def setDaemon(self, d):
        self.daemon = d
    def start(self):
        if self._st:
            raise RuntimeError("threads can only be started once")
        self._st = 1
        self.ident = 2
        lazy = MODE["lazy"]
        if lazy is None:
            lazy = __choose__(2)
        if lazy:
            PENDING.append(self)
        else:
            self._go()
    def _go(self):
        self._st = 2
        _CUR.append(self)
        try:
            self.run()
        except BaseException as e:
            UNCAUGHT.append(e)
        _CUR.pop()
        self._st = 3
    def is_alive(self):
        return self._st in (1, 2)
    def join(self, timeout=None):
        if self._st == 1:
            if timeout is not None and __choose__(2):
                return
            PENDING.remove(self)
            self._go()
class Lock:
    def __init__(self):
        self._n = False
    def acquire(self, blocking=True, timeout=-1):
        if self._n:
            if not blocking:
                return False
            run_pending()
            if self._n:
                deadlock("a lock that is never released")
        self._n = True
        return True
    def release(self):
        self._n = False
    def locked(self):
        return self._n
    def __enter__(self):
        self.acquire()
        return self
    def __exit__(self, *a):
        self.release()
class RLock(Lock):
    def acquire(self, blocking=True, timeout=-1):
        return True
def deadlock(what):
    __check__(False, "no deadlock", "waits for ever for %s" % what)
    __stop__()
class Event:
    def __init__(self):
        self._f = False
    def is_set(self):
        return self._f
    isSet = is_set
    def set(self):
        self._f = True
    def clear(self):
        self._f = False
    def wait(self, timeout=None):
        if not self._f:
            run_pending()
            if not self._f and timeout is None:
                deadlock("an event that nobody sets")
        return self._f
class Condition(RLock):
    def wait(self, timeout=None):
        run_pending()
        return True
    def wait_for(self, p, timeout=None):
        if not p():
            run_pending()
            if not p() and timeout is None:
                deadlock("a condition nobody makes true")
        return p()
    def notify(self, n=1):
        pass
    def notify_all(self):
        pass
class Semaphore:
    def __init__(self, value=1):
        self._v = value
    def acquire(self, blocking=True, timeout=None):
        if self._v <= 0:
            if not blocking:
                return False
            run_pending()
        self._v -= 1
        return True
    def release(self, n=1):
        self._v += n
    def __enter__(self):
        self.acquire()
        return self
    def __exit__(self, *a):
        self.release()
BoundedSemaphore = Semaphore
'''
LIBS["queue"] = '''
import threading
class Empty(Exception):
    pass
class Full(Exception):
    pass
class Queue:
    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self.items = []
        self.unfinished = 0
    def put(self, x, block=True, timeout=None):
        if self.maxsize > 0 and len(self.items) >= self.maxsize and (
                not block or timeout is not None):
            raise Full
        if 0 < self.maxsize <= len(self.items):
            threading.BLOCKED.append(threading.current_thread())
        self.items.append(x)
        self.unfinished += 1
    def put_nowait(self, x):
        self.put(x, False)
    def _take(self):
        return self.items.pop(0)
    def get(self, block=True, timeout=None):
        if not self.items:
            if block and (timeout is None or __choose__(2)):
                threading.run_pending()
            if not self.items:
                if block and timeout is None:
                    threading.deadlock("a queue that stays empty")
                raise Empty
        return self._take()
    def get_nowait(self):
        return self.get(False)
    def task_done(self):
        if self.unfinished <= 0:
            raise ValueError("task_done() called too many times")
        self.unfinished -= 1
    def join(self):
        threading.run_pending()
        if self.unfinished:
            threading.deadlock("tasks nobody reports as done")
    def empty(self):
        return not self.items
    def full(self):
        return 0 < self.maxsize <= len(self.items)
    def qsize(self):
        return len(self.items)
class SimpleQueue(Queue):
    pass
class LifoQueue(Queue):
    def _take(self):
        return self.items.pop()
class PriorityQueue(Queue):
    def _take(self):
        import heapq
        heapq.heapify(self.items)
        return heapq.heappop(self.items)
'''
LIBS["concurrent"] = ""
LIBS["concurrent.futures"] = '''
class Future:
    def __init__(self, fn, a, k):
        self._e = None
        self._r = None
        try:
            self._r = fn(*a, **k)
        except BaseException as e:
            self._e = e
    def result(self, timeout=None):
        if self._e is not None:
            raise self._e
        return self._r
    def exception(self, timeout=None):
        return self._e
    def done(self):
        return True
    def cancel(self):
        return False
    def add_done_callback(self, f):
        f(self)
class Executor:
    def __init__(self, max_workers=None, *a, **k):
        pass
    def submit(self, fn, *a, **k):
        return Future(fn, a, k)
    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [Future(fn, a, {}) for a in zip(*its)]
        def gen():
            for f in fs:
                yield f.result()
        return gen()
    def shutdown(self, wait=True, **k):
        pass
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return False
ThreadPoolExecutor = ProcessPoolExecutor = Executor
def as_completed(fs, timeout=None):
    fs = list(fs)
    return iter(fs[::-1] if len(fs) > 1 and __choose__(2) else fs)
'''
