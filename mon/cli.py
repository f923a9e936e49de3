"""Runs the real basjoofan binary."""
import os, resource, signal, subprocess, tempfile, threading, time
from . import build


class Run:
    def __init__(self, out, err, code, timeout, start, end):
        self.out, self.err, self.code, self.timeout, self.start, self.end = out, err, code, timeout, start, end
        self.text = out.decode("utf-8", "replace")
        self.hung, self.args = 0, None


def busy(pid):
    """(what changes whenever one of its threads does anything, whether a thread is running) of a process."""
    used, running = 0, False
    try:
        for t in os.listdir("/proc/%d/task" % pid):
            f = open("/proc/%d/task/%s/stat" % (pid, t)).read().rsplit(")", 1)[1].split()
            used += int(f[11]) + int(f[12])
            running |= f[0] != "S"
            used += sum(int(l.split()[1]) for l in open("/proc/%d/task/%s/status" % (pid, t)) if "ctxt_switches" in l) << 20
    except (OSError, IndexError): return -1, True
    return used, running


def over(ctx, r, replay=None):
    """Whether a run ended by itself. One that does nothing at all any more is a violation, one that is merely slow is not judged."""
    if not r.timeout: return True
    if r.hung: ctx.violation("%s does not end: for %d s none of its threads has done anything" % (r.args, r.hung), replay or {"args": repr(r.args), "out": r.text[-6000:], "err": r.err[-2000:].decode("utf-8", "replace")})
    ctx.inconclusive += 1
    return False


def clean_env(extra=None):
    e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": "/nonexistent", "LANG": "C.UTF-8"}
    e.update(extra or {})
    return e


def spawn(args, cwd=None, env=None, binary=None, stdin=subprocess.DEVNULL, stdout=None, memory=None, fsize=None, xfsz="die"):
    """fsize: no file can grow beyond it; a write that would ends the process (die) or fails (fail)."""
    out = stdout or tempfile.TemporaryFile()
    err = tempfile.TemporaryFile()

    def pre():
        os.setpgid(0, 0)
        signal.signal(signal.SIGINT, signal.SIG_DFL)  # whatever this was started with
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if memory: resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
        if fsize is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN if xfsz == "fail" else signal.SIG_DFL)
    t0 = time.monotonic()  # not later than anything the process does
    p = subprocess.Popen([binary or build.TARGET + "/cli/debug/basjoofan"] + list(args), cwd=cwd, env=clean_env(env),
                         stdin=stdin, stdout=out, stderr=err, preexec_fn=pre)
    p.out, p.err, p.t0, p.what = out, err, t0, [a if isinstance(a, str) else repr(a) for a in args]
    return p


def ready(pid):
    """Whether the process handles an interrupt by now."""
    try:
        for l in open("/proc/%d/status" % pid):
            if l.startswith("SigCgt:"): return bool(int(l.split()[1], 16) >> (signal.SIGINT - 1) & 1)
    except (OSError, ValueError): pass
    return False


def finish(p, timeout=60.0, idle=None):
    """Waits for the process (a watchdog ends it) and gives what it printed. idle: seconds without any activity after which it counts as hung."""
    fired, hung = False, 0
    end = time.monotonic() + timeout
    last, since = None, time.monotonic()
    while p.poll() is None:
        left = end - time.monotonic()
        try: p.wait(max(0, min(left, 2.0 if idle else left)))
        except subprocess.TimeoutExpired:
            now = time.monotonic()
            used, running = busy(p.pid) if idle else (0, True)
            if used != last or running: last, since = used, now
            hung = now - since if idle and now - since >= idle else 0
            if now < end and not hung: continue
            fired = True
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            p.wait()
    end = time.monotonic()
    data = b""
    if hasattr(p.out, "seek"):
        p.out.seek(0)
        data = p.out.read()
        p.out.close()
    p.err.seek(0)
    err = p.err.read()
    p.err.close()
    r = Run(data, err, p.returncode, fired, p.t0, end)
    r.hung, r.args = hung, p.what
    return r


def run(args, cwd=None, env=None, binary=None, stdin=None, timeout=60.0, memory=None, idle=25.0):
    if stdin is None: return finish(spawn(args, cwd, env, binary, memory=memory), timeout, idle)
    f = tempfile.TemporaryFile()
    f.write(stdin if isinstance(stdin, bytes) else stdin.encode())
    f.seek(0)
    return finish(spawn(args, cwd, env, binary, stdin=f, memory=memory), timeout, idle)
