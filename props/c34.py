"""C34: a run's open files, connections, threads and memory do not grow with what it has done."""
import os, signal, socket, ssl, tempfile, threading, time
from mon import build as B, cli, httpd, net, pki, util, wire

RULE = ("while long runs are in progress (all kinds of exchanges: answered, failing in every way, large; recording; statistics; iterations that end normally; the lines of a session, one after another) the server, at the moment it holds a request, counts the process's open files, threads and resident memory and "
        "the earlier connections the client has not closed yet; none may grow from the first part of the run to the last beyond a fixed allowance. Non-trivial: a distinct kind of run with its sizes.")
FLOOR = 20
BUDGET = {"quick": 25, "thorough": 240}
SLACK = {"files": 6, "threads": 4, "memory": 40 << 20}


def build(): B.cli()


def usage(pid):
    try:
        files = len(os.listdir("/proc/%d/fd" % pid))
        threads = len(os.listdir("/proc/%d/task" % pid))
        memory = int(open("/proc/%d/statm" % pid).read().split()[1]) * 4096
    except (OSError, IndexError): return None
    return {"files": files, "threads": threads, "memory": memory}


def closed(sock):
    """Whether the client has closed its side of a connection (on the loopback a close is seen at once)."""
    try: return sock.recv(1, socket.MSG_PEEK | socket.MSG_DONTWAIT) == b""
    except BlockingIOError: return False
    except OSError: return True


class Env: pass


def setup(ctx):
    e = Env()
    e.lock = threading.Lock()
    e.known = threading.Event()
    e.scratch = util.Scratch("amnet.")
    e.pid, e.samples, e.open, e.how = None, [], [], None

    def answer(conn):
        ok = conn.request()
        if not ok: return
        e.known.wait(10)
        with e.lock:
            e.open = [c for c in e.open if not closed(c.sock)]
            u = usage(e.pid)
            if u: e.samples.append(dict(u, connections=len(e.open) + 1))
            # a duplicate, so that it can be looked at after the exchange is over (it would keep a connection from being reset)
            if e.how is not reset:
                kept = conn.sock.dup()
                kept.settimeout(0)  # never waited on
                e.open.append(type("Kept", (), {"sock": kept}))
            if len(e.open) > 400: e.open.pop(0).sock.close()
        e.how(conn)
    e.s = httpd.Server(answer, backlog=2048)
    e.net = net.Net(e.scratch.path, answer)
    e.tls = httpd.Server(lambda conn: conn.rst() if conn.index % 2 else (conn._more(8), conn.send(b"HTTP/1.1 400 no\r\n\r\n"), end(conn)))
    k = pki.Pki(e.scratch.path)
    k.cert("root", ca=True)
    k.cert("leaf", issuer="root", san="IP:127.0.0.1")
    e.trust = {"SSL_CERT_FILE": k.path("root.pem")}
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    c.load_cert_chain(k.path("leaf.pem"), k.path("leaf.key"))

    def secured(conn):
        """Answers over TLS, and ends it properly or not."""
        conn.sock.settimeout(20)
        with c.wrap_socket(conn.sock, server_side=True) as s:
            got = b""
            while b"\r\n\r\n" not in got:
                data = s.recv(65536)
                if not data: return
                got += data
            s.sendall(wire.response(body="x" * (2, 40000)[conn.index % 5 == 0]))
            e.secured += 1
            if conn.index % 3 == 0: s.unwrap()
    e.secured = 0
    e.secure = httpd.Server(secured)
    refused = socket.socket()
    refused.bind(("127.0.0.1", 0))
    e.refused = refused.getsockname()[1]
    e.keep = refused
    return e


def teardown(e):
    e.s.close()
    e.net.close()
    e.scratch.__exit__()
    e.tls.close()
    e.secure.close()
    e.keep.close()


def end(conn):
    conn.fin()
    conn.drain()


def answered(size):
    data = wire.response(body=b"x" * size)

    def how(conn):
        conn.send(data)
        end(conn)
    return how


def cut(conn):
    conn.send(b"HTTP/1.1 200 OK\r\nContent-Length: 10\r\n\r\nabc")
    end(conn)


def garbage(conn):
    conn.send(os.urandom(3000))
    end(conn)


def nothing(conn): end(conn)
def reset(conn): conn.rst()


def headers(conn):
    conn.send(b"HTTP/1.1 200 OK\r\n" + b"".join(b"X-%d: %s\r\n" % (i, b"v" * 50) for i in range(200)) + b"\r\n{}")
    end(conn)


def varied(conn):
    conn.send(wire.response(headers=[("X-%d" % conn.index, "%d" % conn.index)], body=b"%d " % conn.index + b"v" * 90000))
    end(conn)


def refusal(conn):
    conn.send(wire.response(status=(400, 404, 500, 503, 302, 204)[conn.index % 6], reason="no", headers=[("Retry-After", "1")], body=b"x" * (0 if conn.index % 6 == 5 else 600000)))
    end(conn)


def json(conn):
    conn.send(wire.response(body=b'{"list": [%s]}' % b",".join(b'{"id": %d, "name": "n%d"}' % (i, i) for i in range(100))))
    end(conn)


HOW = {"small": (answered(2), 900), "medium": (answered(30000), 500), "large": (answered(400000), 400), "cut": (cut, 900), "garbage": (garbage, 700), "nothing": (nothing, 900), "reset": (reset, 900), "headers": (headers, 300), "json": (json, 150), "varied": (varied, 900), "refusal": (refusal, 700)}
# what else an iteration does, besides the exchange the server measures in
BODIES = {"q": "q()", "qq": "q(); q()", "let": "let r = q(); let s = [r.status, r.body]; let u = format(\"{a}{a}\", r.body, r.status)", "refused": "q(); z()", "unknown": "q(); y()", "tls": "q(); x()", "secure": "q(); s()", "upload": "f()", "distinct": "let n = n + 1; g()", "print": "q(); println(\"{a}\", \"0123456789\")", "assert": "a()"}


def play(ctx, env, how, t, n, body, options, record):
    env.known.clear()
    env.samples, env.how = [], HOW[how][0]
    with util.Scratch() as d:
        util.write(d + "/up.bin", os.urandom(20000))
        source = ("request q `GET http://127.0.0.1:{p}/`;\nrequest z `GET http://127.0.0.1:{z}/`;\nrequest y `GET http://name.invalid/`;\nrequest x `GET https://127.0.0.1:{t}/`;\nrequest s `GET https://127.0.0.1:{s}/`;\n"
                  "request f `POST http://127.0.0.1:{p}/\nContent-Type: multipart/form-data\n\nf: @{d}/up.bin`;\nrequest a `GET http://127.0.0.1:{p}/`[status == 200, (let k = body) == body, length(headers) >= 0]\n"
                  "let n = 0; let filler = \"" + "f" * 250000 + "\"\nrequest g `POST http://127.0.0.1:{p}/{n}\nX-{n}: {n}\n\n{filler}{n}`;\n").replace("{p}", str(env.s.port)).replace("{t}", str(env.tls.port)).replace("{s}", str(env.secure.port)).replace("{z}", str(env.refused)).replace("{d}", d)
        source += "test t { %s }\n" % BODIES[body]
        util.write(d + "/s/a.fan", source)
        args = ["test", "t", "-t", str(t), "-n", str(n), "-p", d + "/s"] + options
        if record:
            os.mkdir(d + "/r")
            args += ["-r", d + "/r"]
        env.secured = 0
        p = cli.spawn(args, env=env.trust)
        env.pid = p.pid
        env.known.set()
        r = cli.finish(p, 200, 60)
        env.s.take()
        env.tls.take()
        env.secure.take()
    with env.lock:
        for c in env.open: c.sock.close()
        env.open = []
        samples = env.samples
    what = "test of %s answers (%s) -t %d -n %d %s%s" % (how, body, t, n, options, " recording" if record else "")
    replay = {"args": args, "source": source, "samples": samples[::max(1, len(samples) // 60)]}
    if not cli.over(ctx, r, replay): return
    k = len(samples)
    if body == "secure": ctx.count("secured", env.secured)
    if k < 20 + 4 * t:
        ctx.inconclusive += 1
        return
    early, late = samples[2 * t:2 * t + max(k // 4, 4)], samples[k - max(k // 4, 4):]
    for key, slack in SLACK.items():
        if key == "memory": allowed = slack + t * (4 << 20)
        else: allowed = slack + 2 * t
        a, b = max(x[key] for x in early), min(x[key] for x in late) if key != "memory" else sorted(x[key] for x in late)[len(late) // 2]
        ctx.check(b - a <= allowed, lambda: "%s: %s grow from %d in the first quarter to %d in the last" % (what, key, a, b), replay)
        ctx.peak(key, max(x[key] for x in samples))
    # a thread has one connection at a time: every earlier one is closed before its next
    most = max(x["connections"] for x in samples)
    ctx.check(most <= t, lambda: "%s: %d connections open at once" % (what, most), replay)
    ctx.peak("connections", most)
    ctx.count("samples", k)
    ctx.count("iterations", n)
    ctx.seen((how, t, n, body, tuple(options), record), what)


# hosts of which several addresses answer: attempts overtake each other
LISTS = {"second": [("2001:db8::1", "slow", 260), ("9.9.9.2", "ok", 0)], "all": [("2001:db8::1", "slow", 300), ("9.9.9.2", "slow", 90), ("2001:db8::3", "slow", 20)], "first": [("9.9.9.1", "slow", 230), ("2001:db8::2", "slow", 300), ("9.9.9.3", "ok", 0)],
         "late": [("2001:db8::1", "late", 300), ("9.9.9.2", "ok", 0)], "failing": [("2001:db8::1", "late", 230), ("9.9.9.2", "late", 60), ("9.9.9.3", "ok", 0)], "one": [("9.9.9.1", "slow", 1)]}


def overtaking(ctx, env, kind, t, n):
    """Attempts that lost the race leave nothing behind."""
    addrs = LISTS[kind]
    env.net.set({"many.example": [a for a, _, _ in addrs]}, {a: (k, ms) for a, k, ms in addrs})
    env.known.clear()
    env.samples, env.how = [], HOW["small"][0]
    with util.Scratch() as d:
        source = "request q `GET http://many.example:8099/`;\ntest t { q() }\n"
        util.write(d + "/s/a.fan", source)
        args = ["test", "t", "-t", str(t), "-n", str(n), "-p", d + "/s"]
        p = cli.spawn(args, env=env.net.env)
        env.pid = p.pid
        env.known.set()
        r = cli.finish(p, 200, 60)
        env.net.take()
    with env.lock:
        for c in env.open: c.sock.close()
        env.open, samples = [], env.samples
    what = "test of a host with the addresses %s -t %d -n %d" % (addrs, t, n)
    replay = {"args": args, "source": source, "samples": samples[::max(1, len(samples) // 60)]}
    if not cli.over(ctx, r, replay): return
    if len(samples) < n // 2:
        ctx.inconclusive += 1
        return
    k = len(samples) // 4
    # a thread has its connection and the attempts of its last calls, which take 0.3 s at most
    for key, each in (("files", 4), ("threads", 4)):
        a, b = max(x[key] for x in samples[2 * t:2 * t + k]), min(x[key] for x in samples[-k:])
        ctx.check(b - a <= 6 + each * t, lambda: "%s: %s grow from %d in the first quarter to %d in the last" % (what, key, a, b), replay)
        ctx.peak(key, max(x[key] for x in samples))
    ctx.count("overtaken", n)
    ctx.seen((kind, t, n), what)


def idle(ctx, env, body, t, seconds, record):
    """Iterations without requests, by the hundred thousand: seen from outside."""
    with util.Scratch() as d:
        util.write(d + "/s/a.fan", "let list = [1, 2]; let text = \"abc\"\ntest t { %s }\n" % body)
        args = ["test", "t", "-t", str(t), "-d", "%ds" % seconds, "-p", d + "/s"]
        if record:
            os.mkdir(d + "/r")
            args += ["-r", d + "/r"]
        p = cli.spawn(args)
        samples = []
        t0 = time.monotonic()
        while p.poll() is None and time.monotonic() - t0 < seconds + 20:
            u = usage(p.pid)
            if u and u["memory"]: samples.append(u)
            time.sleep(.05)
        r = cli.finish(p, 60, 30)
    what = "test { %s } -t %d -d %ds%s" % (body, t, seconds, " recording" if record else "")
    replay = {"args": args, "body": body, "samples": samples}
    if not cli.over(ctx, r, replay): return
    if len(samples) < 12:
        ctx.inconclusive += 1
        return
    k = len(samples)
    for key, slack in (("files", 0), ("threads", 0), ("memory", (6 << 20) + t * (4 << 20))):
        a, b = max(x[key] for x in samples[k // 8:k // 3]), min(x[key] for x in samples[-k // 4:-1])
        ctx.check(b - a <= slack, lambda: "%s: %s grow from %d to %d" % (what, key, a, b), replay)
    ctx.count("idle_runs")
    ctx.seen((body, t, seconds, record), what)


IDLE = ["", "1", "let a = 1", "let a = format(\"{a}{b}\", text, list)", "let a = append(list, 3); let b = length(a)", "let a = {\"k\": text + text}; a.k", "if (true) { let b = [list, list] } else { 2 }"]


# the lines of a session, again and again; each makes one request the server measures in, or none
LINES = {"call": "q().status", "let": "let r = q()", "twice": "length(q().body) + length(q().headers)", "list": "let l = [q(), 1]", "assert": "a()", "refused": "z()", "distinct": "let n = n + 1; length(g().body)",
         "redefine": "request q `GET http://127.0.0.1:{p}/`; let r = q()", "secure": "s().status; q().status", "mixed": None}


def sessions(ctx, env, how, kind, n):
    """Line after line of a session."""
    env.known.clear()
    env.samples, env.how = [], HOW[how][0]
    head = ["request q `GET http://127.0.0.1:{p}/`", "request z `GET http://127.0.0.1:{z}/`", "request a `GET http://127.0.0.1:{p}/`[status == 200, (let k = body) == body, length(headers) >= 0]", "request s `GET https://127.0.0.1:{s}/`",
            "let n = 0; let filler = \"" + "f" * 90000 + "\"; 0", "request g `GET http://127.0.0.1:{p}/{n}?f={filler}{n}`"]
    lines = []
    for i in range(n):
        k = kind if LINES[kind] else list(LINES)[i % (len(LINES) - 1)]
        lines.append(LINES[k])
        if k == "refused": lines.append("q().status")
    text = "".join(l + "\n" for l in head + lines).replace("{p}", str(env.s.port)).replace("{z}", str(env.refused)).replace("{s}", str(env.secure.port))
    with tempfile.TemporaryFile() as f:
        f.write(text.encode())
        f.seek(0)
        p = cli.spawn([], stdin=f, env=env.trust)
        env.pid = p.pid
        env.known.set()
        r = cli.finish(p, 200, 60)
        env.s.take()
    with env.lock:
        for c in env.open: c.sock.close()
        env.open, samples = [], env.samples
    what = "session of %d lines (%s) with %s answers" % (len(lines), kind, how)
    replay = {"head": head[:3], "lines": lines[:20], "samples": samples[::max(1, len(samples) // 60)], "out": r.text[:3000]}
    if not cli.over(ctx, r, replay): return
    k = len(samples)
    if k < 40:
        ctx.inconclusive += 1
        return
    for key, slack in SLACK.items():
        a = max(x[key] for x in samples[2:2 + k // 4])
        late = sorted(x[key] for x in samples[k - k // 4:])
        b = late[len(late) // 2]
        # the answer in hand may be kept, and what it was made of
        ctx.check(b - a <= slack, lambda: "%s: %s grow from %d in the first quarter to %d in the last" % (what, key, a, b), replay)
        ctx.peak(key, max(x[key] for x in samples))
    most = max(x["connections"] for x in samples)
    ctx.check(most <= 1, lambda: "%s: %d connections open at once" % (what, most), replay)
    ctx.count("session_samples", k)
    ctx.seen(("session", how, kind, n), what)


def directed(ctx, env, w, nw):
    jobs = []
    for h, k in (("large", "let"), ("varied", "call"), ("refusal", "twice"), ("large", "mixed"), ("cut", "call"), ("medium", "list"), ("large", "redefine"), ("small", "distinct"), ("small", "secure")): jobs.append(lambda h=h, k=k: sessions(ctx, env, h, k, 400 if h == "medium" else 250))
    for i, k in enumerate(LISTS): jobs.append(lambda k=k, i=i: overtaking(ctx, env, k, (4, 8)[i % 2], 30 * (4, 8)[i % 2]))
    for i, b in enumerate(IDLE): jobs.append(lambda b=b, i=i: idle(ctx, env, b, (1, 2)[i % 2], 2, i % 2 == 0))
    for i, (h, (_, n)) in enumerate(HOW.items()): jobs.append(lambda h=h, n=n, i=i: play(ctx, env, h, (1, 4)[i % 2], n, "q", [[], ["-s"]][i % 2], i % 2 == 0))
    for o in ["-s"], []: jobs.append(lambda o=o: play(ctx, env, "large", 2, HOW["large"][1], "q", o, not o))
    for i, b in enumerate(BODIES):
        if b != "q": jobs.append(lambda b=b, i=i: play(ctx, env, "small", (1, 3)[i % 2], 700 if b == "distinct" else 400 if b not in ("tls", "secure") else 200, b, [[], ["-s"]][i % 2], i % 2 == 1))
    for i, j in enumerate(jobs):
        if i % nw == w: j()


def case(ctx, rng, env):
    if rng.random() < .1:
        t = rng.choice([2, 4, 8])
        return overtaking(ctx, env, rng.choice(list(LISTS)), t, 30 * t)
    if rng.random() < .1: return idle(ctx, env, rng.choice(IDLE), rng.choice([1, 2, 4]), rng.choice([2, 3]), rng.random() < .5)
    if rng.random() < .15:
        h = rng.choice(list(HOW))
        return sessions(ctx, env, h, rng.choice(list(LINES)), min(HOW[h][1], rng.choice([250, 500])))
    h = rng.choice(list(HOW))
    n = HOW[h][1] // rng.choice([1, 2, 3])
    b = rng.choice(["q", "q", "q"] + list(BODIES))
    if b in ("tls", "secure") and n > 300: n = 300
    play(ctx, env, h, rng.choice([1, 1, 2, 4, 8]), n, b, rng.choice([[], ["-s"], ["-d", "100h"][:0]]), rng.random() < .5)
