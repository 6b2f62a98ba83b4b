"""R01: the video server (server/server.py)."""

from sa.py.drive import Analysis
from sa.report import AnalysisError
from .common import finish

FS = '''
N = __any_int__("file_size", 0, None)

class Blob:
    """bytes [lo, hi) of the served file"""
    def __init__(self, lo, hi):
        self.lo = lo
        self.hi = hi
    def __len__(self):
        return self.hi - self.lo
    def __bool__(self):
        return self.hi > self.lo
    def __eq__(self, o):
        if o == b"":
            return self.hi == self.lo
        return NotImplemented
    def __getitem__(self, k):
        n = self.hi - self.lo
        a, b, s = k.indices(n)
        if s != 1:
            __check__(False, "bytes in order", "file bytes are reordered")
        if b < a:
            b = a
        return Blob(self.lo + a, self.lo + b)

class F:
    def __init__(self, p, mode):
        self.pos = 0
        self.closed = False
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.closed = True
        return False
    def close(self):
        self.closed = True
    def read(self, n=-1):
        lo = self.pos
        if n is None or n < 0:
            self.pos = N
        elif lo + n < N:
            self.pos = lo + n
        else:
            self.pos = N
        return Blob(lo, self.pos)
    def seek(self, p, w=0):
        self.pos = p if w == 0 else N + p
        return self.pos
    def tell(self):
        return self.pos

EXPECT = {}
def open(p, mode="r", *a, **k):
    __check__(p == EXPECT["input"], "serves the given file",
              "another file than the one given is opened")
    __check__("b" in mode and "r" in mode, "file read as binary",
              "the file is not opened for reading in binary mode")
    return F(p, mode)
'''

NET = '''
import __fs__

class Request:
    def __init__(self):
        self.sent = 0
        self.open = True
    def _part(self, b, rule):
        if isinstance(b, (bytes, bytearray)):
            __check__(len(b) == 0, "only file bytes",
                      "bytes that are not the file's are sent")
            return
        __check__(b.lo == self.sent or b.lo == b.hi, "in order, gapless",
                  "bytes sent do not continue where the last ones ended")
    def sendall(self, b, flags=0):
        self._part(b, "sendall")
        if len(b) > 0:
            self.sent = b.hi
    def send(self, b, flags=0):
        self._part(b, "send")
        if len(b) == 0:
            return 0
        n = __any_int__("sent", 1, None)
        __assume__(n <= b.hi - b.lo)
        self.sent = b.lo + n
        return n
    def sendfile(self, f, offset=0, count=None):
        f.seek(offset)
        self.sendall(f.read() if count is None else f.read(count))
    def settimeout(self, t):
        pass
    def setsockopt(self, *a):
        pass
    def setblocking(self, f):
        pass
    def shutdown(self, how):
        self.open = False
    def close(self):
        self.open = False
    def makefile(self, *a, **k):
        return self
    def write(self, b):
        self.sendall(b)
    def flush(self):
        pass
    def recv(self, n):
        __check__(False, "no waiting for the client",
                  "the player sends nothing: recv would block for ever")

SEEN = []
def serve_once(srv):
    kinds = [s[0] for s in srv.state]
    __check__(kinds == ["bind", "listen"], "bound and listening",
              "the socket is not bound and listening once when serving: %r"
              % (kinds,))
    host, port = srv.state[0][1]
    __event__("port", port)
    __check__("port" not in __fs__.EXPECT or port == __fs__.EXPECT["port"],
              "serves on the given port",
              "the server binds another port than --port")
    __check__(host == "0.0.0.0" or host == "", "reachable from outside",
              "the server does not listen on all interfaces")
    __check__(srv.state[0][2], "address reusable",
              "SO_REUSEADDR is not set when the socket is bound")
    r = Request()
    srv.finish_request(r, ("10.0.0.1", __any_int__("cport", 1, 65535)))
    __check__(r.sent == __fs__.N, "whole file",
              "a connection does not receive the whole file")
    SEEN.append(1)

def serve(srv):
    serve_once(srv)
    __check__(True, "first client served", "")
    serve_once(srv)
    __check__(True, "second client served", "")
    serve_once(srv)
    raise KeyboardInterrupt()
'''

MAIN = '''
import sys, __fs__, __net__
argv = ["server.py", __any_str__("input")]
__fs__.EXPECT["input"] = argv[1]
if __choose__(2):
    port = __any_int__("port", 0, 65535)
    __fs__.EXPECT["port"] = port
    argv[1:1] = ["--port", port]
sys.argv = argv
try:
    import __script__
except KeyboardInterrupt:
    pass
__check__(len(__net__.SEEN) >= 2, "keeps serving",
          "the server stops after %d clients" % len(__net__.SEEN))
'''


def analysis():
    return Analysis(["server"], "import __fs__, __net__\n",
                    {"__fs__": FS, "__net__": NET}, script="server")


def default_port():
    """the port server.py serves on when none is given"""
    a = analysis()
    ports = []

    def event(vm, st, args):
        if args[0] == "port":
            ports.append(args[1])
    a.vm.hooks["event"] = event
    a.explore(MAIN.replace("__choose__(2)", "False"))
    if len(set(ports)) != 1 or not isinstance(ports[0], int):
        raise AnalysisError("the server has no default port: %r" % ports)
    return ports[0]


def R01(rep, tier):
    rep.explanation = (
        "Abstract interpretation of server/server.py with a file of unknown "
        "size and content, any port, and successive client connections.")
    a = analysis()
    finish(rep, a, MAIN, 10)
