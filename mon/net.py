"""A name service and network under control of the harness, by the preloaded shim: every lookup and connect of the code is logged and every connection ends at a local server."""
import mmap, os, socket, struct
from . import build, httpd


class Net:
    def __init__(self, dir, handler):
        self.dir = dir
        self.table, self.log, self.gen = (os.path.join(dir, n) for n in ("table", "log", "gen"))
        with open(self.gen, "wb") as f: f.write(b"\0" * 4096)
        self.file = open(self.gen, "r+b")
        self.page = mmap.mmap(self.file.fileno(), 4096)
        self.n = 0
        self.v4 = httpd.Server(handler)
        self.v6 = httpd.Server(handler, socket.AF_INET6)
        self.set()
        self.env = {"LD_PRELOAD": build.TARGET + "/shim.so", "AM_TABLE": self.table, "AM_LOG": self.log, "AM_GEN": self.gen}

    def set(self, hosts={}, addrs={}, lookup=0, hold=()):
        """hosts: name -> addresses; addrs: address -> (kind, milliseconds)."""
        lines = ["server4 %d" % self.v4.port, "server6 %d" % self.v6.port]
        if lookup: lines.append("lookup %d" % lookup)
        lines += ["hold %s" % h for h in hold]
        lines += ["host %s %s" % (h, " ".join(a)) for h, a in hosts.items()]
        lines += ["addr %s %s %d" % (a, k, ms) for a, (k, ms) in addrs.items()]
        with open(self.table + ".tmp", "w") as f: f.write("\n".join(lines) + "\n")
        os.rename(self.table + ".tmp", self.table)
        open(self.log, "w").close()

    def release(self):
        """Ends the connects that hang."""
        self.n += 1
        self.page[:8] = struct.pack("<Q", self.n)

    def events(self):
        """[("G", name) | ("C", id, addr, port) | ("E", id, errno, local port)] in the order they happened."""
        out = []
        for l in open(self.log, encoding="utf-8", errors="surrogateescape"):
            k, _, rest = l.rstrip("\n").partition(" ")
            if k == "G": out.append(("G", rest))
            else:
                a, b, c = rest.split(" ")
                out.append((k, int(a), b if k == "C" else int(b), int(c)))
        return out

    def take(self): return self.v4.take() + self.v6.take()

    def close(self):
        self.release()
        self.v4.close()
        self.v6.close()
        self.page.close()
        self.file.close()
