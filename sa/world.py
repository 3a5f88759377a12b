"""Stand-ins for sockets and streams, for the folding analysis."""
from .fold import Model, Sym, Bytes, BA, Raised, Unclear, norm, cells, Endless

class Stream:
    "a connected socket: what arrives comes in pieces of any size; what is sent is recorded"
    def __init__(self, cs, name="socket", splits=4, after=None, cut_send=0):
        self.cells, self.pos, self.splits, self.after = tuple(cs), 0, splits, after
        self.sent, self.closed, self.empty, self.cuts, self.calls = [], False, 0, cut_send, 0
        self.model = Model(name, recv=self.recv, send=self.send, sendall=self.sendall, close=self.close, shutdown=self.nothing, settimeout=self.nothing,
                           setblocking=self.nothing, fileno=lambda f, a, k: 7, setsockopt=self.nothing, getpeername=lambda f, a, k: ("peer", 1), gettimeout=self.nothing, pending=lambda f, a, k: 0)
        self.model.attrs.update(connect=self.nothing, __enter__=lambda f, a, k: self.model, __exit__=lambda f, a, k: self.close(f, a, k))
        self.model.stream = self
    def nothing(self, f, a, k): return None
    def close(self, f, a, k): self.closed = True
    def recv(self, f, a, k):
        n = a[0] if a else k.get("bufsize", k.get("buflen"))
        if not isinstance(n, int): raise Unclear("recv of an unknown number of bytes")
        if n < 0: raise Raised(ValueError("negative buffersize in recv"))
        if self.closed: raise Raised(OSError("closed"))
        have = min(n, len(self.cells) - self.pos)
        if have <= 0:
            if n > 0 or self.pos >= len(self.cells): self.empty += 1
            if self.empty > 40: raise Endless("the end of the stream is read again and again")
            if n > 0 and self.after is not None: raise Raised(self.after)
            return b""
        if have > 1 and self.splits > 0:
            self.splits -= 1
            have = f.choose("recv", [have, 1] + ([have - 1] if have > 2 else []))
        r = self.cells[self.pos:self.pos + have]; self.pos += have
        return norm(Bytes(r))
    def send(self, f, a, k):
        d = self.data(a[0])
        n = len(d); self.calls += 1
        if self.calls > 300 and self.cuts == 0 and n < 1000: raise Endless("something is sent again and again")
        if n == 0:
            self.empty += 1
            if self.empty > 40: raise Endless("nothing is sent again and again")
        if n > 1 and self.cuts > 0:
            self.cuts -= 1
            n = f.choose("send", [n, 1] + ([n - 1] if n > 2 else []))
        self.sent += d[:n]
        return n
    def sendall(self, f, a, k): self.sent += self.data(a[0])
    def data(self, v):
        if self.closed: raise Raised(OSError("closed"))
        if isinstance(v, (bytes, Bytes)): return list(cells(v))
        raise Raised(TypeError("a bytes-like object is required")) if isinstance(v, str) or v is None else Unclear("sending the unknown %r" % (v,))

def unknown(name, n): return tuple(Sym(("$" + name, i), int) for i in range(n))
def remaining(n):
    out = []
    while True:
        n, d = divmod(n, 128); out.append(d | (128 if n else 0))
        if not n: return tuple(out)
