"""A recording HTTP server under full control of a test: raw bytes in, scripted bytes out."""
import socket, struct, threading, time


class Conn:
    def __init__(self, server, sock, peer, index):
        self.server, self.sock, self.peer, self.index = server, sock, peer, index
        self.raw = bytearray()
        self.opened = time.monotonic()
        self.opened_wall = time.time_ns()
        self.eof = self.reset = self.stalled = False
        self.marks = {}
        self.error = None
        self.done = threading.Event()

    def mark(self, name): self.marks[name] = time.monotonic_ns()

    def _more(self, timeout):
        self.sock.settimeout(timeout)
        try: data = self.sock.recv(1 << 18)
        except (socket.timeout, TimeoutError): return None
        except OSError:
            self.reset = True
            return b""
        if not data: self.eof = True
        self.raw += data
        return data

    def head(self, idle=8.0):
        """Reads until the end of the headers; returns their end, or None when the client stopped short."""
        while True:
            i = self.raw.find(b"\r\n\r\n")
            if i >= 0: return i + 4
            data = self._more(idle)
            if data is None: self.stalled = True
            if not data: return None

    def request(self, idle=8.0):
        """Reads one request as its Content-Length frames it."""
        end = self.head(idle)
        if end is None: return False
        n = 0
        for line in bytes(self.raw[:end]).split(b"\r\n")[1:]:
            k, _, v = line.partition(b":")
            if k.strip().lower() == b"content-length":
                try: n = int(v.strip())
                except ValueError: n = 0
        while len(self.raw) < end + n:
            data = self._more(idle)
            if data is None: self.stalled = True
            if not data: return False
        return True

    def send(self, data):
        try:
            self.sock.settimeout(60)
            self.sock.sendall(data)
            return True
        except OSError:
            self.reset = True
            return False

    def fin(self):
        try: self.sock.shutdown(socket.SHUT_WR)
        except OSError: pass

    def rst(self):
        try:
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.sock.close()
        except OSError: pass

    def drain(self, timeout=20.0):
        """Reads whatever else the client sends until it closes."""
        end = time.monotonic() + timeout
        while not self.eof and not self.reset:
            if time.monotonic() > end:
                self.stalled = True
                return False
            self._more(1.0)
        return True


class Server:
    """handler(conn) runs in a thread per connection; conns lists all connections ever accepted."""

    def __init__(self, handler, family=socket.AF_INET, addr=None, port=0, backlog=512):
        self.handler = handler
        self.lock = threading.Lock()
        self.conns = []
        self.barriers = {}
        self.sock = socket.socket(family, socket.SOCK_STREAM)
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        if family == socket.AF_INET6: self.sock.setsockopt(socket.IPPROTO_IPV6, socket.IPV6_V6ONLY, 1)
        self.sock.bind((addr or ("127.0.0.1" if family == socket.AF_INET else "::1"), port))
        self.sock.listen(backlog)
        self.addr, self.port = self.sock.getsockname()[:2]
        self.closed = False
        threading.Thread(target=self._accept, daemon=True).start()

    def _accept(self):
        while not self.closed:
            try: sock, peer = self.sock.accept()
            except OSError:
                if self.closed: return
                continue
            if peer[1] in self.barriers:
                sock.close()
                self.barriers.pop(peer[1]).set()
                continue
            with self.lock:
                conn = Conn(self, sock, peer, len(self.conns))
                self.conns.append(conn)
            sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            threading.Thread(target=self._run, args=(conn,), daemon=True).start()

    def _run(self, conn):
        try: self.handler(conn)
        except Exception as e: conn.error = repr(e)
        finally:
            try: conn.sock.close()
            except OSError: pass
            conn.done.set()

    def flush(self):
        """Returns once every connection made before is accepted (they are accepted in order)."""
        with socket.socket(self.sock.family, socket.SOCK_STREAM) as s:
            s.bind((self.addr, 0))
            accepted = self.barriers[s.getsockname()[1]] = threading.Event()
            s.settimeout(30)
            s.connect((self.addr, self.port))
            accepted.wait(30)

    def take(self):
        """The connections since the last take, once each is finished."""
        self.flush()
        with self.lock: conns, self.conns = self.conns, []
        for c in conns: c.done.wait(30)
        return conns

    def close(self):
        self.closed = True
        try: self.sock.shutdown(socket.SHUT_RDWR)
        except OSError: pass
        self.sock.close()


def respond(data):
    """A handler: reads a request, answers with data, closes its side, reads to the end."""
    def handler(conn):
        conn.request()
        conn.send(data(conn) if callable(data) else data)
        conn.fin()
        conn.drain()
    return handler


OK = b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok"
