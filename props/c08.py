"""C08: a request goes out on the wire exactly as declared."""
from mon import build as B, dictionary, httpd, probe, texts, util, wire

RULE = ("requests generated as structures (method, target, version, headers - repeated, odd, many, long - and a raw body), declared in a script with random indentation and called one or several times; a recording server "
        "keeps every byte of every connection until the client closes it, and the bytes are compared with the structure. Non-trivial: a distinct request recorded by the server.")
FLOOR = 300
BUDGET = {"quick": 20, "thorough": 300}


def build(): B.probe()


class Env: pass


def setup(ctx):
    e = Env()
    e.p = probe.Probe()
    e.s = httpd.Server(httpd.respond(httpd.OK))
    return e


def teardown(e):
    e.p.stop()
    e.s.close()


def play(ctx, env, messages, texts_, calls):
    """Declares messages, calls them in the given order and compares what the server recorded."""
    lines = ["request r%d `%s`" % (i, t) for i, t in enumerate(texts_)]
    for group in calls: lines.append("; ".join("r%d()" % i for i in group))
    steps, why = util.session(env.p, lines, idle=90)
    conns = env.s.take()
    replay = {"lines": [l[:5000] for l in lines], "raw": [bytes(c.raw[:3000]).decode("utf-8", "backslashreplace") for c in conns]}
    if not ctx.check(steps is not None, lambda: "requests %r: %s" % (lines[0][:300], why), replay): return
    order = [i for g in calls for i in g]
    ctx.check(len(conns) == len(order), lambda: "%d calls opened %d connections" % (len(order), len(conns)), replay)
    for i, c in zip(order, conns):
        m = messages[i]
        body = wire.raw_body(m.body) if m.body is not None else b""
        why = wire.check(c.raw, m.method, m.target, m.version or "HTTP/1.1", m.headers, body)
        ctx.check(why is None, lambda: "declared %r: %s" % (texts_[i][:600], why), replay)
        ctx.count("bytes", len(c.raw))
        ctx.count("headers", len(m.headers))
        ctx.seen(bytes(c.raw), bytes(c.raw[:150]).decode("utf-8", "replace"))
    ctx.count("connections", len(conns))


def message(rng, port):
    t = texts.target(rng)
    url = "http://127.0.0.1:%d%s" % (port, t)
    if rng.random() < .05: t, url = "/", "http://127.0.0.1:%d" % port
    elif rng.random() < .05:
        q = "?" + t.strip("/?")
        t, url = "/" + q, "http://127.0.0.1:%d%s" % (port, q)
    if rng.random() < .15: url += "#" + texts.chars(rng, rng.randint(0, 12), "abc019/:?#@=&%.-é")  # not part of what is asked for
    hs = texts.headers(rng)
    body = None
    r = rng.random()
    if r < .5:
        if rng.random() < .5: hs.insert(rng.randint(0, len(hs)), ("Content-Type", rng.choice(["text/plain", "application/json", "application/x-www-form-urlencoded; charset=utf-8", "x"])))
        n = rng.choice([1, 1, 2, 5]) if rng.random() < .95 else rng.choice(dictionary.sizes(2000))
        body = [texts.chars(rng, rng.randint(0, 30)) for _ in range(n)]
        if rng.random() < .05: body = [texts.chars(rng, k, "abcé") for k in [rng.choice(dictionary.sizes(200000))]]
        if not "".join(body).strip(): body = None
        elif rng.random() < .2:
            n = len(wire.raw_body(body))
            hs.insert(rng.randint(0, len(hs)), (rng.choice(["Content-Length", "content-length"]), str(n)))
    m = wire.Message(rng.choice(wire.METHODS), url, rng.choice([None, None] + wire.VERSIONS), hs, body, t)
    return m


def clean(text): return "`" not in text and "\r" not in text and not wire_placeholder(text)
def wire_placeholder(t):
    from mon.model import PLACEHOLDER
    return PLACEHOLDER.search(t) is not None


def directed(ctx, env, w, nw):
    base = "http://127.0.0.1:%d" % env.s.port
    ms = []
    for me in wire.METHODS:
        for v in [None] + wire.VERSIONS: ms.append(wire.Message(me, base + "/m?x=1", v, [("Host", "h")], None, "/m?x=1"))
    for rest, target in (("#f", "/"), ("/#", "/"), ("/a#f", "/a"), ("/a?b=c#d", "/a?b=c"), ("?b#c#d", "/?b"), ("/a/#/b?c=d", "/a/"), ("#/a", "/"), ("/%23a", "/%23a"), ("?u=%23#x", "/?u=%23")): ms.append(wire.Message("GET", base + rest, None, [("Host", "h#h"), ("X", "#")], ["#body"], target))
    for v in ["\0a\0", "a\0b", "\x01", "a\x7f", "\x1b[0m", "\u200ba\u200b", "\ufeffa", "a\xad"]: ms.append(wire.Message("POST", base + "/c", None, [("X-C", v), ("After", "1")], [v + "x", "x" + v], "/c"))
    for n in list(range(0, 12)) + [63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 1000]: ms.append(wire.Message("GET", base + "/h", None, [("X-%d" % (i % 50), "v%d" % i) for i in range(n)], None, "/h"))
    for n in dictionary.sizes(140000):
        ms.append(wire.Message("GET", base + "/v", None, [("X-Big", "v" * n), ("After", "1")], None, "/v"))
        if n < 30000: ms.append(wire.Message("GET", base + "/" + "p" * n, None, [("After", "1")], None, "/" + "p" * n))
        if n: ms.append(wire.Message("POST", base + "/b", None, [("After", "1")], ["b" * n], "/b"))
        if n: ms.append(wire.Message("POST", base + "/b", None, [("After", "1")], ["é" * n], "/b"))
        if 0 < n < 5000: ms.append(wire.Message("POST", base + "/b", None, [("X" * n, "1")], None, "/b"))
    for k in texts.NAMES:
        for v in texts.VALUES: ms.append(wire.Message("PUT", base + "/x", None, [(k, v), (k, v), ("Z", "z")], None, "/x"))
    for s in dictionary.strings():
        if "`" in s or "\n" in s or "\r" in s or ":" in s or not s.strip() or s.lower() in ("content-type", "content-length", "transfer-encoding"): continue
        ms.append(wire.Message("GET", base + "/d", None, [("X-D", s.strip()), (s.strip(), "v"), ("Z", "1")], None, "/d"))
        ms.append(wire.Message("POST", base + "/d", None, [("Content-Type", "text/" + s.strip())], [s.strip(), s.strip()], "/d"))
    if not ctx.quick: ms.append(wire.Message("POST", base + "/b", None, [], ["x" * 30000000], "/b"))
    ms.append(wire.Message("POST", base + "/b", None, [], ["y" * 3000000, "é" * 1000000], "/b"))
    ms += [wire.Message("POST", base + "/b", None, [], ["x" * n], "/b") for n in (21000000,) + dictionary.large(140000, 71000000)]
    for i, m in enumerate(ms):
        if i % nw == w:
            t = m.text()
            if clean(t): play(ctx, env, [m], [t], [[0]])


def case(ctx, rng, env):
    ms = [message(rng, env.s.port) for _ in range(rng.choice([1, 1, 2, 4]))]
    ts = [m.text(rng) for m in ms]
    if not all(map(clean, ts)): return
    n = len(ms)
    play(ctx, env, ms, ts, [[rng.randrange(n) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))])
