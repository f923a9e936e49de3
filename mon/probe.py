"""Client of the probe: the real library executing commands, watched for hangs, panics and crashes."""
import json, os, resource, select, signal, subprocess, tempfile, time
from . import build
from .core import HarnessError, Inconclusive

TICK = os.sysconf("SC_CLK_TCK")


def cpu_of(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / TICK, f[0]
    except (FileNotFoundError, ProcessLookupError, IndexError): return None, "X"


class Probe:
    """One probe process. call() gives its answer, or {"hang"|"died": ...} after restarting it."""

    def __init__(self, stack=None, memory=6 << 30, env=None, cwd=None, path=None):
        self.stack, self.memory, self.env, self.cwd = stack, memory, env, cwd
        self.path = path or build.TARGET + "/probe/debug/probe"
        self.p = None
        self.starts = 0

    def start(self):
        env = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8"}
        env.update(self.env or {})
        if self.stack: env["PROBE_STACK"] = str(self.stack)
        self.err = tempfile.TemporaryFile()

        def limit():
            resource.setrlimit(resource.RLIMIT_AS, (self.memory, self.memory))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=env, cwd=self.cwd, preexec_fn=limit)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf = b""
        self.starts += 1

    def stop(self):
        if self.p:
            try: self.p.kill()
            except ProcessLookupError: pass
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout, self.err):
                try: f.close()
                except OSError: pass
            self.p = None

    def settle(self):
        """Waits for the threads of what was called before (attempts to connect that are not needed any more)."""
        until = time.monotonic() + 20
        while self.p is not None:
            try: n = len(os.listdir("/proc/%d/task" % self.p.pid))
            except OSError: return
            if n <= 2: return
            if time.monotonic() > until: return self.stop()
            time.sleep(.002)

    def dead(self):
        code = self.p.wait()
        self.err.seek(0)
        tail = self.err.read()[-600:].decode("utf-8", "replace")
        self.stop()
        return {"died": code, "stderr": tail}

    def call(self, command, cpu=10.0, wall=120.0, idle=15.0):
        """cpu: processor seconds the command may take; wall: watchdog (inconclusive) when it is merely slow;
        idle: seconds without any processor time after which it counts as blocked for good (None: may wait)."""
        if self.p is None: self.start()
        pid = self.p.pid
        c0, _ = cpu_of(pid)
        data = (json.dumps(command) + "\n").encode()
        t0 = time.monotonic()
        last, moved = c0, t0
        fd_in, fd_out = self.p.stdin.fileno(), self.p.stdout.fileno()
        os.set_blocking(fd_in, False)
        view = memoryview(data)
        while True:
            r, w, _ = select.select([fd_out], [fd_in] if view else [], [], 0.5)
            if w:
                try: view = view[os.write(fd_in, view[:65536]):]
                except BlockingIOError: pass
                except BrokenPipeError: return self.dead()
            if r:
                try: chunk = os.read(fd_out, 1 << 20)
                except BlockingIOError: chunk = None
                if chunk == b"": return self.dead()
                if chunk:
                    self.buf += chunk
                    if chunk.endswith(b"\n"):
                        line, self.buf = self.buf, b""
                        reply = json.loads(line)
                        if "bad" in reply or "unknown" in reply: raise HarnessError("probe: %r" % reply)
                        reply["_cpu"] = (cpu_of(pid)[0] or c0) - c0
                        return reply
            if not r and not w:
                now = time.monotonic()
                c, state = cpu_of(pid)
                if c is None: continue
                if c - last > .02 * (now - moved): last, moved = c, now  # waiting threads use a little, too
                if c - c0 > cpu:
                    self.stop()
                    return {"hang": "%.1f s of processor time without an answer" % (c - c0)}
                if idle is not None and now - moved > idle and state == "S" and not view:
                    self.stop()
                    return {"hang": "blocked for %.0f s without using the processor" % (now - moved)}
                if now - t0 > wall:
                    self.stop()
                    raise Inconclusive("watchdog")


def bad(reply):
    """Why a reply is not one: a panic, hang or crash (None when it is fine)."""
    for k in ("panic", "hang", "died"):
        if k in reply: return "%s: %s %s" % (k, reply[k], reply.get("stderr", ""))
    return None
