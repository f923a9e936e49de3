"""C16: a failing exchange is contained and reported."""
import socket, time
from mon import build as B, cli, dictionary, httpd, model, probe, texts, util, wire

RULE = ("servers that refuse, end (by close or reset) after every byte of a response and at every stage of the request, never read, or answer malformed, oversized or non-UTF-8 bytes; each bad exchange is surrounded by good ones of the same "
        "session (and, by the real binary, of the same and of other tests); results, reports and records are judged. Non-trivial: a distinct misbehaviour.")
ASSUMPTIONS = ["whether a reset after a complete response counts as a failure is not judged", "an answer that is complete before the request was read may be accepted or fail"]
FLOOR = 300
BUDGET = {"quick": 25, "thorough": 300}
WORKERS = 16
GOOD = wire.response(headers=[("A", "b")], body="good")


def build():
    B.probe()
    B.cli()


class Env: pass


class Fault:
    """When and what the server sends, and how it ends. read: whole | none | number of bytes."""

    def __init__(self, data=b"", end="fin", read="whole", pause=0, linger=0):
        self.data, self.end, self.read, self.pause, self.linger = data, end, read, pause, linger

    def __repr__(self): return "(reads %s, sends %s, %s%s)" % (self.read, wire.shorten(self.data), self.end, ", after %g s" % self.linger if self.linger else "")


def act(conn, f):
    if f.read == "whole": conn.request()
    elif f.read != "none":
        while len(conn.raw) < f.read and conn._more(8): pass
    if f.pause: time.sleep(f.pause)
    if f.data: conn.send(f.data)
    if f.linger: time.sleep(f.linger)
    if f.end == "rst": conn.rst()
    elif f.end == "close": conn.sock.close()
    else:
        conn.fin()
        conn.drain(20)


def setup(ctx):
    e = Env()
    e.p = probe.Probe()
    # two servers, so that a server that reads nothing still knows what is asked of it
    e.good = httpd.Server(httpd.respond(GOOD))
    e.bad = httpd.Server(None)
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    e.closed_socket, e.closed = s, s.getsockname()[1]  # bound and not listening: refuses
    return e


def teardown(e):
    e.p.stop()
    e.good.close()
    e.bad.close()
    e.closed_socket.close()


def judge_value(ctx, what, v, data, replay):
    """A response value holds nothing that was not received."""
    if not ctx.check(isinstance(v, dict) and {"version", "status", "reason", "headers", "body"} <= set(v), lambda: "%s: the call gives %s" % (what, repr(v)[:300]), replay): return
    text = data.decode("utf-8", "replace")
    flat = " ".join(text.split())
    parts = [("version", v["version"]), ("body", v["body"])] + [("header name", n) for n in v["headers"]] + [("header value", x) for xs in v["headers"].values() for x in xs]
    for k, x in parts: ctx.check(x in text, lambda: "%s: %s %s was not received" % (what, k, repr(x)[:200]), replay)
    ctx.check(" ".join(v["reason"].split()) in flat, lambda: "%s: reason %r was not received" % (what, v["reason"]), replay)
    ctx.check(v["status"] == 0 or str(v["status"]) in text, lambda: "%s: status %r was not received" % (what, v["status"]), replay)


def play(ctx, env, faults, body="", must="FAIL", port=None, method="POST", sig=None):
    """Every fault between two good requests; must: FAIL, PASS or None when not judged."""
    what = "%s %s" % (method, faults)
    lines = ["request good `GET http://127.0.0.1:%d/good` [status == 200, body == \"good\"]" % env.good.port,
             "request bad `%s http://127.0.0.1:%d/bad\nHost: h%s`%s" % (method, port or env.bad.port, "\n\n" + body if body else "", " [status == 200]" if must == "PASS" else ""), "let keep = 41; good()"]
    for f in faults: lines += ["bad()", "good()"]
    lines.append("keep + 1")
    # one call after the other: the fault of the n-th connection is the n-th one
    order = list(faults)
    env.bad.handler = lambda conn: act(conn, order[min(conn.index, len(order) - 1)])
    steps, why = util.session(env.p, lines, idle=60, cpu=60)
    conns = env.bad.take()
    env.good.take()
    replay = {"faults": repr(faults)[:4000], "lines": [l[:500] for l in lines], "steps": repr(steps)[:4000]}
    if not ctx.check(steps is not None, lambda: "%s: %s" % (what, why), replay): return
    ctx.check(steps[-1].get("ok") == "Integer(42)", lambda: "%s: variables afterwards: %r" % (what, steps[-1]), replay)
    for i, s in enumerate(steps[2:-1]):
        records = s.get("records") or []
        if not ctx.check("ok" in s and len(records) == 1, lambda: "%s: step %d gave %s with %d records" % (what, i, repr(s)[:400], len(records)), replay): continue
        d = records[0]["display"]
        if i % 2 == 0:
            v = model.read_debug(s["ok"])
            ctx.check((v["status"], v["body"], v["headers"]) == (200, "good", {"A": ["b"]}) and "--- PASS  good (" in d, lambda: "%s: the good request after it: %s %r" % (what, repr(v)[:300], d), replay)
        else:
            f = faults[i // 2]
            ctx.check(d.startswith("=== TEST  bad\n") and d.count("--- ") == 1, lambda: "%s: reported as %r" % (what, d), replay)
            judge_value(ctx, repr(f), model.read_debug(s["ok"]), f.data if port is None else b"", replay)
            if must is not None: ctx.check("--- %s  bad (" % must in d, lambda: "%s must be %s: reported %r, value %s, error %r" % (f, must, d, s["ok"][:300], records[0].get("error")), replay, sig)
            if "response" in records[0]:
                v, r = model.read_debug(s["ok"]), records[0]["response"]
                ctx.check((v["version"], v["status"], v["reason"], v["body"]) == (r["version"], r["status"], r["reason"], r["body"]), lambda: "%s: value %s and record %r differ" % (what, repr(v)[:300], r), replay)
            ctx.count("reported_" + ("pass" if "--- PASS" in d else "fail"))
            ctx.seen((repr(f), len(body), port is None, method), repr(f))


FULL = wire.response(version="HTTP/1.1", status=200, reason="OK", headers=[("Content-Length", "11"), ("X", "ß")], body="hello wörl"[:10])
HEADS = len(FULL) - 11
MALFORMED = [b"\r\n\r\n", b"\n", b" \r\n\r\n", b"HTTP/1.1\r\n\r\n", b"HTTP/1.1 \r\n\r\n", b"HTTP/1.1 abc OK\r\n\r\n", b"HTTP/1.1 -200 OK\r\n\r\n", b"HTTP/1.1 99999999999 OK\r\n\r\n", b"HTTP/1.1 65536 OK\r\n\r\n", b"garbage", b"garbage\r\n\r\n", b"\0" * 100, b"\xff\xfe\xfd\r\n\r\n",
             b"HTTP/1.1 \xff\xff OK\r\n\r\nx", b"<html></html>", b"HTTP/1.1200OK\r\n\r\nx", b"200\r\n\r\nx", b"x" * 100000, b"\r\n" * 1000, b"HTTP/1.1 2 0 0\xff\r\n\r\n", b"HTTP/1.1 OK 200\r\n\r\nx"]
NONTEXT = [wire.response(body=b"\xff"), wire.response(body=b"ok\xc3"), wire.response(body=bytes(range(256))), b"HTTP/1.1 200 OK\r\nX: \xff\r\n\r\nbody", b"HTTP/1.1 200 OK\r\n\xff\xfe: x\r\n\r\nbody", b"HTTP/1.1 200 \xff\r\n\r\nbody", wire.response(body=b"a" * 100000 + b"\xf0\x9f"), wire.response(body=b"\xed\xa0\x80")]
ODD = [b"HTTP/1.1 200 OK\r\nno colon\r\nA: b\r\n\r\nx", b"HTTP/1.1 200 OK\r\n: empty\r\n\r\nx", b"HTTP/1.1 200 OK\r\nA:\r\n\r\n", b"HTTP/1.1 200 OK\n\nx", b"HTTP/1.1 200 OK\nA: b\n\nx", b"HTTP/1.1 200 OK\r\nA: b\r\n folded\r\n\r\nx", b"HTTP/1.1 65535 X\r\n\r\n", b"HTTP/1.1 000 X\r\n\r\n", b"X 1\r\n\r\n", b"HTTP/1.1 200 OK\r\nContent-Length: abc\r\n\r\nxyz",
       b"HTTP/1.1 200 OK\r\nContent-Length: -1\r\n\r\nxyz", b"HTTP/1.1 200 OK\r\nContent-Length: 99999999999999999999999\r\n\r\nxyz", b"HTTP/1.1 200 OK\r\n" + b"A: " + b"v" * 3000000 + b"\r\n\r\nx", b"HTTP/1.1 200 OK\r\n" + b"A: v\r\n" * 60000 + b"\r\nx", b"HTTP/1.1 200 " + b"r " * 200000 + b"\r\n\r\nx",
       b"HTTP/1.1 200 OK\r\nA: \0\0\r\n\r\n\0\0", b"HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 200 OK\r\n\r\nx", b"HTTP/1.1 200 OK\r\n\r\n" + b"{" * 300000, b"HTTP/1.1 200 OK\r\n\r\n" + b"-" * 300000, b"HTTP/1.1 200 OK\r\n\r\n!", b"HTTP/1.1 200 OK\r\n\r\n" + b"a.b" * 100000, b"HTTP/1.1 200 OK\r\n\r\n\"" + b"a" * 1000000]


METHODS = ["POST", "GET", "PUT", "PATCH", "DELETE", "OPTIONS", "TRACE"]


def directed(ctx, env, w, nw):
    jobs = []
    # the announced length counts whatever the status, the method and the spelling
    for lo in range(200, 600, 4):
        cuts = [Fault(wire.response(status=s, reason=rng_reason, headers=[("A", "b"), (spelled, str(n)), ("Z", "z")], body="b" * (n - less)))
                for s in range(lo, lo + 4) if s not in (204, 304) for rng_reason, spelled, n, less in [(["OK", "", "R r"][s % 3], ["Content-Length", "content-length", "CONTENT-LENGTH"][s % 3], [1, 10, 100, 65536, 1 << 20][s % 5], [1, 1, 7, 1000, 1][s % 5])]]
        jobs.append(lambda lo=lo, cuts=cuts: play(ctx, env, cuts, method=METHODS[lo // 4 % len(METHODS)]))
    for n in range(len(FULL) + 1):  # every byte of a response with an announced length
        for end in ("fin", "rst"):
            must = None if n == len(FULL) else "FAIL"
            jobs.append(lambda n=n, end=end, must=must: play(ctx, env, [Fault(FULL[:n], end)], must=must if n != len(FULL) or end == "rst" else "PASS"))
    jobs.append(lambda: play(ctx, env, [Fault(FULL[:n], "fin") for n in range(len(FULL))]))
    # announced lengths of every number of digits and around the sizes of integers
    lengths = [10 ** k - i for k in range(1, 20) for i in (1, 0)] + [(1 << k) + 3 + i for k in (8, 16, 24, 31, 32, 33, 40, 48, 53, 62, 63) for i in (-4, 0, 1)] + [(1 << 64) - 1]
    for n in range(0, len(lengths), 5): jobs.append(lambda n=n: play(ctx, env, [Fault(b"HTTP/1.1 200 OK\r\nContent-Length: %s\r\n\r\nxyz" % x) for l in lengths[n:n + 5] if l > 3 for x in (b"%d" % l, b"0000%d" % l)]))
    for n in (0, 1, 5, 20): jobs.append(lambda n=n: play(ctx, env, [Fault(b"HTTP/1.1 200 OK\r\nA: b\r\n\r\n" + b"x" * n, "rst", linger=.02)]))
    for f in MALFORMED: jobs.append(lambda f=f: play(ctx, env, [Fault(f)]))
    for f in NONTEXT[:3] + NONTEXT[6:]: jobs.append(lambda f=f: play(ctx, env, [Fault(f)]))
    for f in ODD + NONTEXT[3:6]: jobs.append(lambda f=f: play(ctx, env, [Fault(f)], must=None))
    for end in ("fin", "rst", "close"):
        for read in ("none", 1, 10, 30):
            for body in ("", "b" * 100, "b" * 3000000):
                for pause in (0, .05): jobs.append(lambda end=end, read=read, body=body, pause=pause: play(ctx, env, [Fault(b"", end, read, pause)], body))
                if end != "fin" or not body: jobs.append(lambda end=end, read=read, body=body: play(ctx, env, [Fault(GOOD, end, read)], body, must=None))
    for body in ("b" * 8000000,):  # more than the socket buffers hold: the client is still writing when the server, which never read, goes away
        for end in ("rst", "close"): jobs.append(lambda body=body, end=end: play(ctx, env, [Fault(b"", end, "none", .6)], body))
    for body in ("", "x" * 100000): jobs.append(lambda body=body: play(ctx, env, [Fault()], body, port=env.closed))
    jobs.append(lambda: play(ctx, env, [Fault()], port=1))
    # a response to HEAD, and not modified, announces a length it does not have
    jobs.append(lambda: play(ctx, env, [Fault(b"HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\n")], method="HEAD", must="PASS"))
    jobs.append(lambda: play(ctx, env, [Fault(b"HTTP/1.1 304 Not Modified\r\nContent-Length: 100\r\n\r\n")], method="GET", must=None))
    for i, j in enumerate(jobs):
        if i % nw == w: j()
    for _ in range(2 if ctx.quick else 10): whole_run(ctx, env, w)


def whole_run(ctx, env, w):
    """The real binary: a test that meets every kind of fault, and others that do not; all are reported, and it ends well."""
    order = [Fault(FULL[:5]), Fault(b"", "rst", "none"), Fault(MALFORMED[w % len(MALFORMED)]), Fault(NONTEXT[w % 3]), Fault(FULL[:-3], "rst"), Fault(b"", "close", "none"), Fault(FULL[:HEADS - 4])]
    env.bad.handler = lambda conn: act(conn, order[conn.index % len(order)])
    source = ("request good `GET http://127.0.0.1:%d/good` [status == 200]\nrequest bad `GET http://127.0.0.1:%d/bad` [status == 200]\nrequest closed `GET http://127.0.0.1:%d/`\n"
              "test faults { %s closed() println(\"END faults\") }\ntest fine { good() good() println(\"END fine\") }\ntest other { good() println(\"END other\") }\n" % (env.good.port, env.bad.port, env.closed, "bad() good() " * len(order)))
    with util.Scratch() as d:
        util.write(d + "/s/a.fan", source)
        for args in (["test", "-p", d + "/s"], ["test", "faults", "-p", d + "/s", "-n", "3", "-t", "2"]):
            r = cli.run(args, timeout=120)
            env.bad.take()
            env.good.take()
            replay = {"args": args, "source": source, "out": r.text[:6000], "err": r.err.decode("utf-8", "replace")[:2000]}
            if not cli.over(ctx, r): continue
            runs = 3 if len(args) > 4 else 1
            other = 0 if len(args) > 4 else 1
            got = {k: r.text.count(k) for k in ("--- PASS  good (", "--- FAIL  good (", "--- PASS  bad (", "--- FAIL  bad (", "--- FAIL  closed (", "END faults", "END fine", "END other")}
            want = {"--- PASS  good (": runs * len(order) + 3 * other, "--- FAIL  good (": 0, "--- PASS  bad (": 0, "--- FAIL  bad (": runs * len(order), "--- FAIL  closed (": runs, "END faults": runs, "END fine": other, "END other": other}
            ctx.check(got == want and r.code == 0 and b"panicked" not in r.err, lambda: "%s printed %r, expected %r; exit %r, %r" % (args, got, want, r.code, r.err[:300]), replay)
            ctx.count("runs")
            ctx.seen(("run", len(args), w), repr(args))


def case(ctx, rng, env):
    r = rng.random()
    faults = []
    body = rng.choice(["", "", "x", "b" * rng.choice([10, 5000, 200000])])
    if r < .35:
        hs = [(k, v) for k, v in texts.headers(rng, ("content-length", "transfer-encoding"))][:20]
        b = texts.chars(rng, rng.choice([1, 5, 50, 5000]), "abc é日{}[]\",:\n")
        full = wire.response(rng.choice(["HTTP/1.1", "HTTP/1.1", "HTTP/1.0", "HTTP/2"]), status=rng.choice([200, 404, 500]) if rng.random() < .3 else rng.choice([s for s in range(200, 600) if s not in (204, 304)]), reason=rng.choice(["OK", "", "a b"]), headers=hs + [("Content-Length", str(len(b.encode())))], body=b)
        for _ in range(rng.randint(1, 4)): faults.append(Fault(full[:rng.randrange(len(full))], rng.choice(["fin", "rst"]), linger=rng.choice([0, 0, .002])))
        play(ctx, env, faults, body, method=rng.choice(METHODS))
    elif r < .6:
        data = bytearray(FULL)
        for _ in range(rng.randint(1, 5)):
            k = rng.randrange(len(data))
            if rng.random() < .5: data[k] = rng.getrandbits(8)
            elif rng.random() < .5: del data[k:k + rng.randint(1, 5)]
            else: data[k:k] = rng.choice([b"\r\n", b"\0", b":", b" ", b"\xff", b"\n\n", b"\r\n\r\n", b"9"])
            if not data: data = bytearray(b"x")
        play(ctx, env, [Fault(bytes(data), rng.choice(["fin", "rst", "fin"]))], body, must=None)
    elif r < .75: play(ctx, env, [Fault(bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 10, 100, 5000]))), rng.choice(["fin", "rst"]))], body, must=None)
    else:
        mix = [Fault(b"", rng.choice(["fin", "rst", "close"]), rng.choice(["none", "whole", 5])), Fault(rng.choice(MALFORMED)), Fault(FULL[:rng.randrange(len(FULL))], rng.choice(["fin", "rst"])), Fault(rng.choice(NONTEXT[:3]))]
        play(ctx, env, [rng.choice(mix) for _ in range(rng.randint(2, 5))], body)
