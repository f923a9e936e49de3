"""C11: the response seen by the script is the one the server sent."""
import threading, time
from mon import build as B, cli, dictionary, httpd, model, probe, texts, util, wire

RULE = ("responses generated as structures (version, status, reason, headers - repeated, odd, many, long - UTF-8 body of 0 bytes to MBs), sent in random pieces (single bytes, cuts inside characters, status line, header names and line "
        "ends) with and without delays (also with the client's own time limits, if it has any, running a hundred times faster), then closed; the value of the call, the operands shown by assertions and the record are each compared with the structure. Non-trivial: a distinct (response, segmentation).")
ASSUMPTIONS = ["repeated headers repeat in the same spelling", "the response is ended by closing the connection, as the property says (a keep-alive server is outside of it)",
               "a body in chunked framing is a listed known finding"]
FLOOR = 200
BUDGET = {"quick": 20, "thorough": 300}
REASONS = ["Not  Found", "a   b  c", "a\tb", "x \t y", "a\u00a0\u00a0b", "a\u2003 b", "OK", "", None, "Not Found", "I'm a teapot", "Moved Permanently", "Found: /x", "Größe 日本", "200 201", "a b c d e f g", "HTTP/1.1 200 OK", "-", "0"]


def build():
    B.probe()
    B.cli()
    B.preload("impatient")


class Env: pass


class Play:
    """What the server does for one path: pieces, pauses."""

    def __init__(self, data, cuts=(), pauses=None):
        self.data, self.cuts, self.pauses = data, sorted(set(c for c in cuts if 0 < c < len(data))), pauses or {}

    def pieces(self):
        last = 0
        for c in self.cuts + [len(self.data)]:
            yield last, self.data[last:c]
            last = c


def handler(env):
    def run(conn):
        if env.hold: time.sleep(env.hold)
        if not conn.request(): return
        key = int(bytes(conn.raw[:60]).split(b" ", 2)[1][1:])
        play = env.plans[key]
        for at, piece in play.pieces():
            p = play.pauses.get(at)
            if p is not None: time.sleep(p)
            if not conn.send(piece): return
        if "end" in play.pauses: time.sleep(play.pauses["end"])
        conn.fin()
        conn.drain()
    return run


def setup(ctx):
    e = Env()
    e.p = probe.Probe()
    e.plans, e.n, e.hold = {}, 0, 0
    e.s = httpd.Server(handler(e))
    return e


def teardown(e):
    e.p.stop()
    e.s.close()


class Case:
    def __init__(self, version, status, reason, headers, body, cuts=(), pauses=None, wirebody=None):
        self.version, self.status, self.reason, self.headers, self.body = version, status, reason, headers, body
        self.data = wire.response(version, status, reason, headers, body if wirebody is None else wirebody)
        self.play, self.framed = Play(self.data, cuts, pauses), wirebody


def play(ctx, env, cases, sig=None, sent=""):
    env.plans.clear()
    lines = []
    for c in cases:
        env.n += 1
        env.plans[env.n] = c.play
        names = list(wire.collect(c.headers))
        safe = [n for n in names if '"' not in n and "`" not in n][:3]
        asserts = ["status == 0", "version == 0", "reason == 0", "body == 0"] + ["headers[\"%s\"] == 0" % n for n in safe]
        lines.append("request r `GET http://127.0.0.1:%d/%d%s` [%s]\nr()" % (env.s.port, env.n, sent, ",\n".join(asserts)))
        c.safe = safe
    steps, why = util.session(env.p, lines, idle=None, cpu=60)
    conns = env.s.take()
    replay = {"responses": [repr(c.data[:3000]) for c in cases], "cuts": [c.play.cuts[:100] for c in cases], "lines": [l[:500] for l in lines]}
    if not ctx.check(steps is not None, lambda: "responses %r: %s" % ([c.data[:300] for c in cases], why), replay): return
    ctx.check(len(conns) == len(cases), lambda: "%d calls opened %d connections" % (len(cases), len(conns)), replay)
    for c, step in zip(cases, steps):
        def bad(what, sig=None): ctx.violation("%s, for the response %s cut at %r" % (what, wire.shorten(c.data), c.play.cuts[:20]), replay, sig)
        if "ok" not in step:
            bad("the call failed: %r" % step)
            continue
        v = model.read_debug(step["ok"])
        want = {"version": c.version, "status": c.status, "reason": c.reason or "", "headers": wire.collect(c.headers), "body": c.body}
        ok = True
        for k, w in want.items():
            if not model.same(v.get(k), w):
                bad("%s is %s, sent %s" % (k, repr(v.get(k))[:400], repr(w)[:400]), sig if k == "body" and v[k].encode() == c.framed else None)
                ok = False
                break
        if not ok: continue
        if len(step["records"]) != 1: bad("%d records" % len(step["records"]))
        r = step["records"][0]
        if "response" in r:
            got = r["response"]
            for k, w in want.items():
                if k == "headers": w = [[h[0], h[1]] for h in c.headers]
                if got[k] != w:
                    bad("recorded %s is %s, sent %s" % (k, repr(got[k])[:400], repr(w)[:400]))
                    break
            if r["error"]: bad("recorded error %r" % r["error"])
            shown = [a["left"] for a in r["asserts"]]
            expected = [str(c.status), c.version, c.reason or "", c.body]
            if shown[:4] != expected: bad("assertions see %s, sent %s" % (repr(shown[:4])[:600], repr(expected)[:600]))
            for n, s in zip(c.safe, shown[4:]):
                try: t = model.text(wire.collect(c.headers)[n])
                except model.Unmodelled: continue
                if s != t: bad("assertions see header %s as %r, sent %r" % (n, s[:300], t[:300]))
        ctx.count("bytes", len(c.data))
        ctx.count("pieces", len(c.play.cuts) + 1)
        ctx.count("pauses", len(c.play.pauses))
        ctx.peak("body", len(c.data))
        ctx.seen((c.data, tuple(c.play.cuts)), repr(c.data[:120]))


def patience(ctx, env, w, nw):
    """A server that takes its time: half a second is the better part of a minute to any time limit of the client's (mon/impatient.c)."""
    usual, env.p = env.p, probe.Probe(env={"LD_PRELOAD": B.preload("impatient")})
    try:
        n, end = len(MIXED.data), MIXED.data.find(b"\r\n\r\n")
        spots = [0, 5, 9, 13, 22, 30, end, end + 2, end + 4, end + 5, n // 2, n - 1, "end"]
        for i, at in enumerate(spots):
            if i % nw != w: continue
            cuts = [at] if at != "end" else []
            play(ctx, env, [Case("HTTP/1.1", 404, "Not Found", MIXED.headers, MIXED.body, cuts, {at: .6}), plain(headers=[("Content-Length", "300000")], body="m" * 300000, cuts=[200000], pauses={200000: .5, "end": .2})])
        if w == nw - 1:
            env.hold = .7
            play(ctx, env, [plain()], sent="\nHost: h\n\n" + "q" * 12000000)
    finally:
        env.hold = 0
        env.p.stop()
        env.p = usual


def large(ctx, env, n):
    """A body that is too long to be printed: the script sends it back."""
    env.plans.clear()
    unit = "the quick brown fox 0123456789 \n"
    c = plain(body=(unit * (n // len(unit) + 1))[:n - 1] + "e", cuts=[n // 3])
    env.plans[1], env.plans[2] = c.play, plain().play
    with util.Scratch() as d:
        util.write(d + "/a.fan", "request r `GET http://127.0.0.1:%d/1`\nrequest s `POST http://127.0.0.1:%d/2\n\n{text}`\ntest t { let text = r().body; println(\"<{a}>\", length(text)); s() }\n" % (env.s.port, env.s.port))
        r = cli.run(["test", "t", "-p", d], timeout=120)
    conns = env.s.take()
    if not cli.over(ctx, r): return
    replay = {"size": n, "out": r.text[:2000]}
    ctx.check("<%d>\n" % n in r.text, lambda: "a body of %d bytes: the script sees %r" % (n, r.text[:300]), replay)
    sent = bytes(conns[1].raw).partition(b"\r\n\r\n")[2] if len(conns) == 2 else b""
    ctx.check(sent == c.body.encode(), lambda: "a body of %d bytes: the script sends back %s" % (n, wire.shorten(sent)), replay)
    ctx.count("bytes", len(c.data))
    ctx.seen(("large", n), n)


def plain(status=200, reason="OK", headers=(("A", "b"),), body="x", **kw): return Case("HTTP/1.1", status, reason, list(headers), body, **kw)


MIXED = plain(404, "Not Found", [("Content-Type", "text/plain; charset=utf-8"), ("Set-Cookie", "a=1; Path=/"), ("Set-Cookie", "b=é"), ("X-Empty", ""), ("Set-Cookie", "c")], "first line\r\n\r\nß日😀 {\"a\": [1]} \n\n  end \n")


def directed(ctx, env, w, nw):
    jobs = []
    for i in range(1, len(MIXED.data)): jobs.append(lambda i=i: Case("HTTP/1.1", 404, "Not Found", MIXED.headers, MIXED.body, [i], {i: .003}))
    jobs.append(lambda: Case("HTTP/1.1", 404, "Not Found", MIXED.headers, MIXED.body, range(len(MIXED.data)), {i: .0005 for i in range(len(MIXED.data))}))
    for s in range(100, 1000): jobs.append(lambda s=s: plain(s, "R%d" % s))
    for v in ("HTTP/1.1", "HTTP/1.0", "HTTP/2", "HTTP/0.9"):
        for r in REASONS: jobs.append(lambda v=v, r=r: Case(v, 200, r, [("A", "b")], "x"))
    for n in list(range(0, 20)) + [63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 1000, 3000]:
        jobs.append(lambda n=n: plain(headers=[("X-%d" % (i % 40), "v%d" % i) for i in range(n)]))
        jobs.append(lambda n=n: plain(headers=[("Same", "v%d" % i) for i in range(n)]))
        jobs.append(lambda n=n: plain(headers=[("X-%d" % i, "v%d" % i) for i in range(n)]))
    for n in dictionary.sizes(1100000):
        jobs.append(lambda n=n: plain(body="b" * n))
        if n < 300000:
            jobs.append(lambda n=n: plain(body="é日"[n & 1] * n + "e"))
            jobs.append(lambda n=n: plain(headers=[("Big", "v" * n), ("Z", "z")]))
            jobs.append(lambda n=n: plain(reason="r" * n + "e"))
        if 0 < n < 20000:
            jobs.append(lambda n=n: plain(headers=[("N" * n, "v"), ("Z", "z")]))
            # the end of the headers, or a character, at each buffer boundary
            for d in range(-3, 4):
                if n + d > 40: jobs.append(lambda n=n, d=d: plain(headers=[("P", "v" * (n + d - 24))], body="é日😀" * 3))
                if n + d > 40: jobs.append(lambda n=n, d=d: plain(headers=[("P", "v")], body="a" * (n + d - 30) + "é日😀" * 3))
    for k in texts.NAMES:
        for v in texts.VALUES: jobs.append(lambda k=k, v=v: plain(headers=[(k, v), ("Mid", "1"), (k, v + "2")]))
    for k in sorted(set(texts.NAMES) | {"Content-Type", "N" * 15, "N" * 16}):
        near = [k, k + "-", k + "-X", k + "_", k + "1", k[:-1] or "Q", "X-" + k, "-" + k, k.replace("-", "_") + "_", k + "." + k, k + k]
        for hs in (near, near[::-1]): jobs.append(lambda hs=hs: plain(headers=[(n, "v%d" % i) for i, n in enumerate(hs)] + [(hs[0], "again")]))
    for v in ("http/1.1", "Http/1.1", "HTTP/1.1.1", "HTTP/11", "HTTP", "http", "RTSP/1.0", "HTTP/3", "H", "1.1", "/", "HTTP/1.1,"): jobs.append(lambda v=v: Case(v, 200, "OK", [("A", "b")], "x"))
    for s in dictionary.strings():
        if not any(c in s for c in "\n\r:") and s.strip(): jobs.append(lambda s=s: plain(headers=[("X-D", s.strip()), (s.strip(), "v")], body=s))
        jobs.append(lambda s=s: plain(body=s + s))
    for c in [chr(i) for i in range(128)] + list("\x80\x85\xa0é\u2028\u2029\ufeff\ufffd日😀\U0010ffff\u0300"): jobs.append(lambda c=c: plain(body=c + "a" + c + c))
    for b in ["", " ", "\n", "\r\n", "\r\n\r\n", "\n\n\n", "HTTP/1.1 500 X\r\n\r\n", "0\r\n\r\n", "a: b\r\n", "\0", "5\r\nhello\r\n", "`", "request r ``", "[" * 300, "1 +", "\"", "{" * 100000, "test t { }"]: jobs.append(lambda b=b: plain(body=b))
    for raw in ("", " ", "\t", "   ", " \t "):
        jobs.append(lambda raw=raw: plain(headers=[("A", "v", raw + "v" + raw), ("B", "x: y", raw + "x: y"), ("C", "", raw)]))
    jobs += [lambda: plain(body="m" * 6000000), lambda: plain(body="日" * 2000000, cuts=range(0, 6000000, 99991)), lambda: plain(body="a\n" * 400000)]
    batch = []
    for i, j in enumerate(jobs):
        if i % nw != w: continue
        batch.append(j())
        if len(batch) >= 12 or sum(len(c.data) for c in batch) > 300000:
            play(ctx, env, batch)
            batch = []
    if batch: play(ctx, env, batch)
    patience(ctx, env, w, nw)
    for i, n in enumerate((21000000,) + dictionary.large(1100000, 71000000)):
        if (i + 3) % nw == w: large(ctx, env, n)
    if w == 0:
        body = "hello world"
        chunked = b"5\r\nhello\r\n6\r\n world\r\n0\r\n\r\n"
        play(ctx, env, [plain(headers=[("Transfer-Encoding", "chunked")], body=body, wirebody=chunked)], sig="chunked")


def body(rng):
    r = rng.random()
    if r < .1: return ""
    if r < .3: return rng.choice(["ok", "{\"a\": 1}", "[1, 2, 3]", "<html>é</html>", "\r\n", " lead", "trail ", "\n\nx\n\n", "a: b\r\nc: d", "HTTP/1.1 200 OK\r\n\r\n", "😀" * 30])
    if r < .4: return texts.chars(rng, rng.choice(dictionary.sizes(300000)), "ab\n")
    if r < .45: return "日é😀x"[:rng.randint(1, 4)] * rng.choice([10, 5000, 90000])
    return texts.chars(rng, rng.randint(0, 300), "abc XYZ019\r\n\t{}[]\":,é日😀\0\x7f\u2028")


def case(ctx, rng, env):
    out = []
    for _ in range(rng.choice([1, 2, 4])):
        hs = [(k, v, rng.choice([" ", "", "  ", "\t"]) + v + rng.choice(["", "", " "])) for k, v in texts.headers(rng, ())]
        if hs and rng.random() < .3: hs = hs + [(hs[0][0], "again"), (hs[-1][0], "more")]
        spelled = {}
        hs = [h for h in hs if spelled.setdefault(h[0].lower(), h[0]) == h[0] and h[0].lower() != "transfer-encoding"]
        b = body(rng)
        if rng.random() < .5: hs = [h for h in hs if h[0].lower() != "content-length"] + [("Content-Length", str(len(b.encode())))]
        c = Case(rng.choice(["HTTP/1.1", "HTTP/1.1", "HTTP/1.0", "HTTP/2"]), rng.choice([200, 201, 204, 301, 304, 400, 404, 500, 503]) if rng.random() < .6 else rng.randint(100, 999),
                 rng.choice(REASONS) if rng.random() < .7 else rng.choice([" ", " ", "  ", "\t", " \t  "]).join(texts.chars(rng, rng.randint(1, 9), "abcXYZ019'-é") for _ in range(rng.randint(1, 5))), hs, b)
        n = len(c.data)
        r = rng.random()
        if r < .35: cuts = []
        elif r < .8: cuts = [rng.randrange(1, n) for _ in range(rng.choice([1, 2, 5, 20]))]
        elif r < .9 and n < 3000: cuts = range(n)
        else:
            end = c.data.find(b"\r\n\r\n")
            cuts = [end + d for d in range(0, 6)] + [c.data.find(b"\r\n") + d for d in range(0, 3)]
        slow = rng.random() < .3
        c.play = Play(c.data, cuts, {x: rng.choice([0, .001, .004, .02]) for x in (rng.sample(list(cuts), min(len(cuts), 6)) if slow and cuts else [])})
        out.append(c)
    play(ctx, env, out)
