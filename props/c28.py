"""C28: no data race, memory error or leak of threads in concurrent runs."""
import glob, json, os, random, signal, socket, ssl, subprocess, threading, time
from mon import build as B, cli, dictionary, gen, httpd, model, net, pki, util, wire
from props import c20

RULE = ("the real command built with ThreadSanitizer (standard library included) and with AddressSanitizer runs named and unnamed tests of many threads with recording, statistics, interrupts, durations, failing disks, multi-address hosts, TLS, "
        "and large, cut, reset and malformed responses, and evaluates generated programs; and its sources run in the Miri interpreter under different schedules. A report of any of them, an abort, a process that does not end, or threads piling up "
        "is a violation. Non-trivial: a distinct run with at least two threads or ten program lines.")
ASSUMPTIONS = ["the C and assembler parts of the TLS library are not instrumented", "under Miri the ctrlc crate is replaced by one that calls the handler from a thread at a set time, and https is not exercised",
               "a process is taken not to end when it has not 100 s after its work (normally well under 5 s)"]
TECHNIQUE = "ThreadSanitizer and AddressSanitizer builds of the real command and the Miri interpreter under concurrent workloads; watchdog and thread-count monitor"
FLOOR = 40
BUDGET = {"quick": 40, "thorough": 420}
GRACE = 420
WORKERS = 8
KINDS = ("thread", "address")


def build():
    B.cli()
    B.shim()
    for k in KINDS: B.sanitized(k)
    B.miri()


class Env: pass


def setup(ctx):
    e = Env()
    e.plan = c20.Plan()
    e.wild = 0
    e.scratch = util.Scratch("amsan.")
    e.dir = e.scratch.path
    e.s = httpd.Server(lambda conn: answer(e, conn), backlog=4096)
    e.net = net.Net(e.dir, lambda conn: answer(e, conn))
    p = pki.Pki(e.dir)
    p.cert("root", ca=True)
    p.cert("leaf", issuer="root", san="DNS:secure.example")
    p.cert("self", san="DNS:secure.example", cn="secure.example")
    e.root = p.path("root.pem")
    e.tls = []
    for n in ("leaf", "self"):
        for v in (ssl.TLSVersion.TLSv1_2, ssl.TLSVersion.TLSv1_3):
            c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            c.load_cert_chain(p.path(n + ".pem"), p.path(n + ".key"))
            c.minimum_version = c.maximum_version = v
            e.tls.append(c)
    e.n = 0
    return e


def teardown(e):
    e.s.close()
    e.net.close()
    e.scratch.__exit__()


def answer(e, conn):
    """An answer of c20's server, sometimes garbage, a reset, or inside TLS."""
    rng = random.Random("%d:%d" % (conn.server.port, conn.index))
    conn.sock.settimeout(8)
    if e.secure:
        c = rng.choice(e.tls)
        try:
            with c.wrap_socket(conn.sock, server_side=True) as s:
                conn.sock = s
                got = b""
                while b"\r\n\r\n" not in got:
                    data = s.recv(65536)
                    if not data: return
                    got += data
                s.sendall(wire.response(body="x" * rng.choice([2, 2, 40000])))
                conn.secured = True
                if rng.random() < .7: s.unwrap()
        except (OSError, ssl.SSLError, ValueError): pass
        return
    if rng.random() >= e.wild: return c20.answer(e if conn.server is e.s else Named(e, conn.server), conn)
    if rng.random() < .8: conn.request()
    r = rng.random()
    data = wire.response(headers=[("A", "b"), ("A", "é"), ("Content-Length", "5")], body="{\"id\": 1, \"ok\": [true, -1.5, {\"k\": null}]}")
    if r < .2: data = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 30, 5000])))
    elif r < .4: data = data[:rng.randrange(len(data))]
    elif r < .6:
        data = bytearray(data)
        for _ in range(4): data[rng.randrange(len(data))] = rng.choice(b"\x00\xff\r\n:{}[]\"\\ 9-")
        data = bytes(data)
    elif r < .7: data = wire.response(body="y" * rng.choice([1 << 20, 3 << 20]))
    elif r < .8: data = wire.response(headers=[("H%d" % i, "v" * 50) for i in range(2000)], body="z")
    elif r < .9: data = wire.response(body=rng.choice(["[" * 30 + "]" * 30, "[1,", "{\"a\": \"\\", "\"" + "é" * 3000, "-" * 500, "1e999", "`", "{}" * 20, "\0"]))
    conn.send(data)
    if rng.random() < .3: return conn.rst()
    conn.fin()
    conn.drain(8)


class Named:
    """c20's environment with another server."""
    def __init__(self, e, s): self.plan, self.s = e.plan, s


def binary(kind): return B.TARGET + "/%s/x86_64-unknown-linux-gnu/debug/basjoofan" % kind


def options(kind, log):
    return {"RUST_MIN_STACK": str(64 << 20), "RUST_BACKTRACE": "0",
            "TSAN_OPTIONS": "log_path=%s:exitcode=66:halt_on_error=0:history_size=4:atexit_sleep_ms=50:report_signal_unsafe=0" % log,
            "ASAN_OPTIONS": "log_path=%s:exitcode=67:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1" % log}


def reports(log): return "\n".join(open(f, errors="replace").read() for f in sorted(glob.glob(log + "*")))


def watch(ctx, env, kind, args, what, extra=None, source="", stop=None, bound=None, fsize=None, stdin=None, codes=(0,), limit=100):
    """Runs the sanitized command and judges everything but its results."""
    env.n += 1
    log = "%s/log%d" % (env.dir, env.n)
    e = options(kind, log)
    e.update(extra or {})
    f = subprocess.DEVNULL
    if stdin is not None:
        import tempfile
        f = tempfile.TemporaryFile()
        f.write(stdin.encode("utf-8", "surrogatepass"))
        f.seek(0)
    p = cli.spawn(args, env=e, binary=binary(kind), stdin=f, fsize=fsize, xfsz="fail")
    peak, begun, armed = 0, time.monotonic(), None
    while p.poll() is None and time.monotonic() - begun < limit:
        try: peak = max(peak, len(os.listdir("/proc/%d/task" % p.pid)))
        except OSError: pass
        # an interrupt counts once it can be handled
        if armed is None and stop and (cli.ready(p.pid) or time.monotonic() - begun > 40): armed = time.monotonic()
        if armed is not None and stop and time.monotonic() - armed >= stop[0]:
            p.send_signal(signal.SIGINT)
            stop = stop[1:]
        time.sleep(.01)
    r = cli.finish(p, max(1, limit - (time.monotonic() - begun)))
    found = reports(log)
    for g in glob.glob(log + "*"): os.unlink(g)
    err = r.err.decode("utf-8", "replace")
    replay = {"kind": kind, "args": args, "source": source, "stdin": stdin, "report": found[:6000], "out": r.text[-2000:], "err": err[-3000:], "code": r.code}
    what = "%s: %s" % (kind, what)
    ctx.check("Sanitizer" not in found + err and "unsafe precondition" not in err, lambda: "%s: %s" % (what, (found or err)[:1500]), replay)
    if r.timeout: return ctx.violation("%s: it has not ended after %d s" % (what, limit), replay)
    ctx.check(r.code in codes, lambda: "%s: exit %r, %r" % (what, r.code, err[:500]), replay)
    if bound is not None: ctx.check(peak <= bound, lambda: "%s: %d threads" % (what, peak), replay)
    ctx.peak("threads", peak)
    ctx.count("runs_" + kind)
    return r


def source(rng, hosts, k, scheme="http", tests=("t",)):
    names = rng.sample(["get", "post_it", "a", "r_1", "items"], rng.randint(1, 3))
    out = ["let base = {\"n\": [1, 2.5, \"x\"], \"m\": \"é\"}", "let i = 0"]
    for x in names:
        body = rng.choice(["", "", "\nContent-Type: application/json\n\n{{\"i\": {i}}}", "\nContent-Type: application/x-www-form-urlencoded\n\na: {i}\nb: é"])
        out.append("request %s `%s %s://%s/%s/{i}\nHost: h%s` [json.id >= 0, json.ok == true, body != \"x\", status == 200, headers.A[0] == \"b\"]" % (x, "POST" if body else "GET", scheme, rng.choice(hosts), x, body))
    for t in tests:
        out.append("test %s { let i = i + 1; let s = append([i], base.n, base) println(format(\"{a} {b}\", s, length(base.m)));%s }" % (t, "".join(" %s();" % rng.choice(names) for _ in range(k))))
    return "\n".join(out)


def plan(env, rng):
    env.plan = c20.make(rng)
    env.wild = rng.choice([0, 0, .2, .6])
    env.secure = False


def run(ctx, env, rng, kind, shape, t, n, k):
    """shape: named | unnamed | interrupt | duration | disk | hosts | tls."""
    plan(env, rng)
    tests, extra, stop, bound, fsize, limit = ["t"], None, None, None, None, 100
    hosts, scheme = ["127.0.0.1:%d" % env.s.port], "http"
    servers = env.s
    if shape in ("hosts", "tls"):
        extra, servers = dict(env.net.env, SSL_CERT_FILE=env.root), env.net
        addrs = ["10.0.%d.%d" % (a, b) for a in range(3) for b in range(3)] + ["2001:db8::%d" % i for i in range(1, 6)]
        if shape == "tls":
            env.secure, scheme, hosts = True, "https", ["secure.example", "Secure.EXAMPLE:8443", "other.example"]
            env.net.set({h: ["9.9.9.7"] if rng.random() < .5 else ["9.9.9.7", "2001:db8::7"] for h in ("secure.example", "other.example")})
            bound = 4 * (t + 4) + 16
        else:
            kinds = [("ok", 0), ("slow", 20), ("refuse", 0), ("late", 60), ("late", 400), ("hang", 0), ("slow", 300)]
            some = {a: rng.choice(kinds) for a in addrs}
            table = {}
            for h in ("a.example", "b.example", "c.example"):
                table[h] = rng.sample(addrs, rng.randint(2, 6))
                if not any(some[a][0] in ("ok", "slow") for a in table[h]): some[rng.choice(table[h])] = ("ok", 0)
            env.net.set(table, some, rng.choice([0, 0, 5]))
            hosts = list(table)
            n = min(n, 2 * t)
    if shape == "unnamed": tests, n = ["t%d" % i for i in range(t)], t
    text = source(rng, hosts, k, scheme, tests)
    if shape in ("interrupt", "duration"): n = 4 * 10 ** 9
    if shape == "interrupt": stop = sorted(rng.choice([.02, .1, .3, .6, 1]) + rng.random() * .3 for _ in range(rng.randint(1, 3)))
    if shape == "disk": fsize = rng.choice([0, 100, 3000, 20000])
    d = "%s/%d" % (env.dir, env.n)
    util.write(d + "/s/a.fan", text)
    os.mkdir(d + "/r")
    record, stat = shape == "disk" or rng.random() < .7, rng.random() < .7
    args = ["test"] + (["t", "-t", str(t), "-n", str(n)] if shape != "unnamed" else []) + ["-p", d + "/s"] + (["-r", d + "/r"] if record else []) + (["-s"] if stat else [])
    if shape == "duration": args += ["-d", "1s"]
    if shape in ("named", "interrupt", "duration", "disk"): bound = 4 * t + 16
    what = "%s run of %d threads, %s iterations, %d requests each%s%s" % (shape, t, n, k, ", recorded" if record else "", ", statistics" if stat else "")
    # a run that cannot write its records or reports may end with an error
    r = watch(ctx, env, kind, args, what, extra, text, stop, bound, fsize, limit=limit, codes=(0, 101) if shape == "disk" else (0,))
    if shape == "hosts": env.net.release()
    conns = servers.take()
    if r is None: return
    blocks = r.text.count("=== TEST  ")
    secured = sum(getattr(c, "secured", False) for c in conns)
    ctx.count("blocks", blocks)
    ctx.count("connections", len(conns))
    if secured: ctx.count("secured", secured)
    ctx.seen((kind, what, len(conns), blocks), "%s: %s" % (kind, what), t > 1 and len(conns) > 1)


def language(ctx, env, rng, kind):
    """Generated programs fed to the sanitized evaluator."""
    g = gen.Gen(rng)
    lines = []
    for _ in range(rng.choice([20, 60])):
        t = model.program(g.program(rng.randint(1, 3)), rng, rng.choice(["plain", "tight", "random"])).replace("\n", " ").replace("\r", " ")
        if rng.random() < .4:
            t = list(t)
            for _ in range(rng.randint(1, 4)):
                i = rng.randrange(len(t) + 1)
                if rng.random() < .6: t.insert(i, rng.choice(list("(){}[]\"'`\\,;.!-+&|=<>^%*/ 09azé😀_\t") + ["let", "if", "else", "request", "test", "true", "null"]))
                else: del t[i:i + rng.randint(1, 3)]
                if not t: t = ["x"]
            t = "".join(t).replace("\n", " ")
        lines.append(t)
    # only the memory is judged here: what lines do is decided by other checks
    text = "\n".join(lines) + "\n"
    watch(ctx, env, kind, [], "a session of %d lines" % len(lines), stdin=text, codes=(0, 101))
    ctx.count("lines", len(lines))
    ctx.seen((kind, text), lines[0][:100], len(lines) >= 10)


def miri(ctx, env, rng, seed, shape):
    """The sources in the interpreter: short, because it is slow, and with a schedule of its own for every seed."""
    env.plan, env.wild, env.secure = c20.Plan(), 0, False
    extra, stdin = {}, subprocess.DEVNULL
    d = "%s/m%d" % (env.dir, seed)
    os.makedirs(d + "/r", exist_ok=True)
    base = "http://127.0.0.1:%d" % env.s.port
    if shape == "repl":
        g = gen.Gen(rng)
        lines = []
        while len(lines) < 25:
            t = model.program(g.program(1), rng, "plain").replace("\n", " ")
            if "format" not in t and "print" not in t and len(t) < 300: lines.append(t)
        import tempfile
        stdin = tempfile.TemporaryFile()
        stdin.write(("\n".join(lines) + "\n").encode())
        stdin.seek(0)
        args, text = [], "\n".join(lines)
    elif shape == "requests":
        text = "request q `GET %s/q/1\nHost: h` [status == 200, body != \"x\"]\ntest a { q() let x = 1 }\ntest b { let x = [1, {\"k\": 2}] x[1].k 1 / 0 }" % base
        util.write(d + "/a.fan", text)
        args = ["test", "-p", d, "-s"]
    else:
        text = "let i = 0\nlet m = {\"a\": [1, 2]}\ntest t { let i = i + 1 let m = append([m], i, \"é\") if (i > 2) { length(m) } else { m[0] } }"
        util.write(d + "/a.fan", text)
        args = ["test", "t", "-t", "3", "-n", "20" if shape == "threads" else "4000000000", "-p", d, "-s"]
        if shape == "interrupt": extra["AM_INTERRUPT"] = "400"
        if shape == "duration": args += ["-d", "1s"]
    flags = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed=%d -Zmiri-preemption-rate=%s" % (seed, rng.choice(["0.01", "0.05", "0.2"]))
    e = {"HOME": "/root", "PATH": "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "RUSTUP_TOOLCHAIN": B.NIGHTLY, "CARGO_NET_OFFLINE": "true",
         "CARGO_TERM_COLOR": "never", "CARGO_INCREMENTAL": "0", "MIRIFLAGS": flags, "LANG": "C.UTF-8"}
    e.update(B.MIRI_ENV)
    e.update(extra)
    out, err = open(d + "/out", "w+b"), open(d + "/err", "w+b")
    p = subprocess.Popen(["cargo", "miri", "run", "-q", "--offline"] + B.MIRI + ["--"] + args, env=e, stdin=stdin, stdout=out, stderr=err, cwd="/", preexec_fn=lambda: os.setpgid(0, 0))
    try: p.wait(360)
    except subprocess.TimeoutExpired:
        # the interpreter is slow: no verdict about the code
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        ctx.inconclusive += 1
        return
    finally:
        conns = env.s.take()
    err.seek(0)
    out.seek(0)
    text_err, text_out = err.read().decode("utf-8", "replace"), out.read().decode("utf-8", "replace")
    what = "Miri: %s under schedule %d" % (shape, seed)
    i = text_err.find("error: Undefined Behavior")
    replay = {"args": args, "source": text, "flags": flags, "err": text_err[max(0, i):][:6000], "out": text_out[-2000:], "code": p.returncode}
    ctx.check(i < 0 and "unsafe precondition" not in text_err, lambda: "%s: %s" % (what, text_err[i:][:1500]), replay)
    if "error: unsupported operation" in text_err:  # the interpreter does not know a system call: nothing to judge
        ctx.count("miri_unsupported")
        return
    ctx.check("error: deadlock" not in text_err and "error: the evaluated program deadlocked" not in text_err, lambda: "%s: %s" % (what, text_err[-1500:]), replay)
    ctx.count("runs_miri")
    ctx.count("miri_connections", len(conns))
    ctx.seen(("miri", shape, seed, text), what)


SHAPES = ["named", "unnamed", "interrupt", "duration", "disk", "hosts", "tls"]
MIRI = ["threads", "interrupt", "repl", "requests", "threads", "duration", "repl", "threads"]


def directed(ctx, env, w, nw):
    rng = random.Random("%d/%d" % (ctx.seed, w))
    miri(ctx, env, rng, ctx.seed * 100 + w, MIRI[w % len(MIRI)])
    jobs = []
    for shape in SHAPES:
        for kind in KINDS:
            jobs.append((shape, kind, 8, 24, 2))
            jobs.append((shape, kind, 2, 60, 1))
    jobs += [("named", "thread", 24, 48, 1), ("unnamed", "thread", 20, 1, 1), ("interrupt", "thread", 24, 1, 1)]
    for i, (shape, kind, t, n, k) in enumerate(jobs):
        if i % nw == w: run(ctx, env, rng, kind, shape, t, n, k)


def case(ctx, rng, env):
    r = rng.random()
    if r < .2: return language(ctx, env, rng, rng.choice(["address", "address", "thread"]))
    if r < .24 and not ctx.quick: return miri(ctx, env, rng, rng.randrange(10 ** 6), rng.choice(MIRI))
    t = rng.choice([1, 2, 3, 6, 12, 24])
    run(ctx, env, rng, rng.choice(KINDS), rng.choice(SHAPES), t, rng.choice([t, 2 * t + 1, 5 * t]), rng.choice([1, 1, 2, 5]))
