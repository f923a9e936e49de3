"""C10: bodies are encoded for their content type and framed."""
import os
from mon import build as B, dictionary, httpd, model, probe, texts, util, wire

RULE = ("raw, urlencoded and multipart bodies generated as data (lines; names and values with every kind of character; files of boundary sizes and hostile bytes), declared in a script and sent to a recording server; an "
        "independent decoder must give back exactly the data, and the framing must fit; unreadable files must make the call fail with nothing sent. Non-trivial: a distinct recorded body.")
FLOOR = 300
BUDGET = {"quick": 20, "thorough": 300}


def build(): B.probe()


class Env: pass


def setup(ctx):
    e = Env()
    e.scratch = util.Scratch("amform.")
    e.dir = e.scratch.path
    e.p = probe.Probe(cwd=e.dir)
    e.s = httpd.Server(httpd.respond(httpd.OK))
    e.n = 0
    return e


def teardown(e):
    e.p.stop()
    e.s.close()
    e.scratch.__exit__()


def send(ctx, env, m, rng=None):
    t = m.text(rng)
    line = "request r `%s` [status == 200] r()" % t
    steps, why = util.session(env.p, [line], idle=90)
    conns = env.s.take()
    replay = {"line": line[:20000], "raw": [bytes(c.raw[:4000]).decode("utf-8", "backslashreplace") for c in conns], "steps": steps}
    if not ctx.check(steps is not None, lambda: "%r: %s" % (line[:600], why), replay): return None
    return steps[0], conns, replay


def one(ctx, env, m, judge, rng=None, boundary=False):
    r = send(ctx, env, m, rng)
    if r is None: return
    step, conns, replay = r
    t = m.text()[:800]
    ctx.check(len(conns) == 1 and "ok" in step, lambda: "%r: %d connections, %r" % (t, len(conns), step), replay)
    c = conns[0]
    why = wire.check(c.raw, m.method, m.target, "HTTP/1.1", m.headers, None, boundary)
    ctx.check(why is None, lambda: "%r: %s" % (t, why), replay)
    line, headers, body = wire.head(c.raw)
    try: why = judge(headers, body)
    except (ValueError, UnicodeDecodeError) as e: why = "cannot be decoded: %s" % e
    ctx.check(why is None, lambda: "%r: body %s %s" % (t, wire.shorten(body), why), replay)
    ctx.count("body_bytes", len(body))
    ctx.seen((m.target, bytes(body) if not boundary else (repr(m.body), len(body))), t[:200])


def msg(env, ctype, body, extra=(), path="/b"):
    hs = [("Host", "h")] + ([("Content-Type", ctype)] if ctype else [])
    hs = list(extra) + hs if len(repr(extra)) % 2 else hs + list(extra)
    return wire.Message("POST", "http://127.0.0.1:%d%s" % (env.s.port, path), None, hs, body, path)


NEAR = ["TE", "Content-Encoding", "Accept-Encoding", "Content-Transfer-Encoding", "X-Content-Length", "Content-Length-X", "Content-Lengt", "X-Transfer-Encoding", "Transfer-Encoding-Y", "Transfer", "Trailer", "Length", "Encoding", "Content-Disposition", "Content-Range",
        "Content-MD5", "Expect-Length", "Upgrade", "X-Content-Type", "Content-Type-X", "Accept", "Content", "Content_Length", "Content-Types", "Boundary"]


def around(rng):
    """Headers next to a body that mean nothing for its framing."""
    if rng is None or rng.random() < .5: return []
    hs = texts.headers(rng) if rng.random() < .3 else [(rng.choice(NEAR), rng.choice(["chunked", "gzip", "3", "0", "identity", "trailers", "x", "multipart/form-data", "application/x-www-form-urlencoded"])) for _ in range(rng.randint(1, 4))]
    return [h for h in hs if len(h[1]) < 3000][:20]


def raw(ctx, env, lines, ctype="text/plain", rng=None, extra=()):
    want = wire.raw_body(lines)
    one(ctx, env, msg(env, ctype, lines, extra or around(rng), path="/raw"), lambda h, b: None if b == want else "is not the declared %s" % wire.shorten(want), rng)
    ctx.count("raw")


def form(ctx, env, pairs, rng=None, extra=()):
    def judge(h, b):
        got = wire.form(b)
        return None if got == pairs else "decodes to %r, declared %r" % (got[:20], pairs[:20])
    one(ctx, env, msg(env, "application/x-www-form-urlencoded", ["%s: %s" % p for p in pairs], extra or around(rng), path="/form"), judge, rng)
    ctx.count("forms")


def multi(ctx, env, fields, rng=None, extra=(), ctname="Content-Type"):
    """fields: (name, text) or (name, bytes): the bytes are put into a file."""
    lines, want_text, want_files = [], [], []
    for n, v in fields:
        if isinstance(v, bytes):
            env.n += 1
            f = "f%d%s" % (env.n % 50, (rng.choice([".txt", ".bin", "", ".json", ".é"]) if rng else ".bin"))
            path = os.path.join(env.dir, f)
            with open(path, "wb") as o: o.write(v)
            lines.append("%s: @%s" % (n, path if env.n % 2 else f))
            want_files.append((n, f, v))
        else:
            lines.append("%s: %s" % (n, v))
            want_text.append((n, v))

    def judge(h, b):
        ct = [v for k, v in h if k.lower() == "content-type"]
        if len(ct) != 1: return "content types %r" % ct
        env.boundary = ct[0].rpartition("boundary=")[2].strip('"').encode()
        parts = wire.multipart(b, ct[0])
        text = [(n, d.decode("utf-8")) for n, f, d in parts if f is None]
        files = [(n, f, d) for n, f, d in parts if f is not None]
        if text != want_text: return "has the text fields %r, declared %r" % (text[:20], want_text[:20])
        if sorted(x[::2] for x in files) != sorted(x[::2] for x in want_files): return "has the files %r, declared %r" % ([(n, f, len(d)) for n, f, d in files], [(n, f, len(d)) for n, f, d in want_files])
        return None
    m = msg(env, None, lines, path="/multi")
    m.headers.insert(1, (ctname, "multipart/form-data"))
    extra = list(extra) or around(rng)
    m.headers = extra + m.headers if len(repr(extra)) % 2 else m.headers + extra
    one(ctx, env, m, judge, rng, boundary=True)
    ctx.count("multiparts")
    ctx.count("files", len(want_files))


def echo(ctx, env, restart, names):
    """Files and texts that contain the boundary of the exchange before, as text, as a delimiter and as the end."""
    multi(ctx, env, [(n, b"first") for n in names])
    for _ in range(3):
        if restart: env.p.stop()
        b = env.boundary
        multi(ctx, env, [(n, (b"a\r\n--" + b + b"\r\nContent-Disposition: form-data; name=\"x\"\r\n\r\n" if i == 0 else b"--" + b + b"--\r\n" + b)) for i, n in enumerate(names)] + [("t", "--" + b.decode())])
        ctx.count("boundaries echoed")


def unreadable(ctx, env, path, others=()):
    m = msg(env, "multipart/form-data", ["a: b"] + ["o%d: @%s" % (i, o) for i, o in enumerate(others)] + ["f: @%s" % path, "z: y"], path="/bad")
    r = send(ctx, env, m)
    if r is None: return
    step, conns, replay = r
    sent = b"".join(bytes(c.raw) for c in conns)
    ctx.check("--- FAIL  r (" in step["records"][0]["display"] if step.get("records") else "err" in step, lambda: "unreadable file %s: reported %r" % (path, step), replay)
    ctx.check(b"\r\n\r\n" not in sent, lambda: "unreadable file %s: sent %r" % (path, sent[:600]), replay)
    ctx.count("unreadable")
    ctx.seen(("unreadable", path, len(others)), path)


HOSTILE = [b"", b"a", b"\r\n", b"--", b"\r\n--", b"\r\n\r\n", b"--boundary--\r\n", bytes(range(256)), b"\xff\xfe", b"\0" * 10, "é日😀".encode(), b"\n", b"\r", b"x\r\n--\r\ny", b"Content-Disposition: form-data; name=\"a\"\r\n\r\nv"]


def large(ctx, env, n, i):
    if i % 3 == 0: raw(ctx, env, ["l" * n])
    elif i % 3 == 1: multi(ctx, env, [("a", b"x" * n)])
    else: form(ctx, env, [("a", "v" * n)])


def directed(ctx, env, w, nw):
    jobs = []
    for n in dictionary.sizes(140000):
        jobs.append(lambda n=n: raw(ctx, env, ["r" * n]) if n else None)
        jobs.append(lambda n=n: raw(ctx, env, ["é" * n, "日"]))
        jobs.append(lambda n=n: form(ctx, env, [("k", "v" * n), ("z", "é" * (n % 3000))]))
        jobs.append(lambda n=n: multi(ctx, env, [("f", bytes(i * 31 & 255 for i in range(n))), ("t", "v" * (n % 9000))]))
        if n < 300: jobs.append(lambda n=n: form(ctx, env, [("k%d" % i, "%d" % i) for i in range(n)]) if n else None)
        if n < 300: jobs.append(lambda n=n: raw(ctx, env, ["l%d" % i for i in range(n + 1)]))
        if n < 40: jobs.append(lambda n=n: multi(ctx, env, [("k%d" % i, b"b%d" % i if i % 3 == 0 else "v%d" % i) for i in range(n + 1)]))
    for h in HOSTILE: jobs.append(lambda h=h: multi(ctx, env, [("f", h), ("t", "x"), ("g", h + b"!")]))
    for c in [chr(i) for i in range(32, 127) if chr(i) not in "`"] + list("éß日😀\u00a0\u2028\ufeff\u0300"):
        jobs.append(lambda c=c: form(ctx, env, [("n" + (c if c not in ":" else "") + "m", "a" + c + "b"), ("k", "a" + c + "b" + c + "d"), ("z", "1")]))
        jobs.append(lambda c=c: raw(ctx, env, ["a" + c + "b", c + "x"]))
        jobs.append(lambda c=c: multi(ctx, env, [("n", "a" + c + "b"), ("m", "1")]))
    jobs += [lambda: form(ctx, env, [("a", ""), ("b", "@x"), ("a", "2"), ("a", "2"), ("c", "x: y"), ("d", "::")]), lambda: raw(ctx, env, ["", "", "a", "", "b", "  c  ", "\td"]), lambda: raw(ctx, env, ['{"a": [1, 2],', '  "b": "c"}'], "application/json"),
             lambda: raw(ctx, env, ["a: b", "c: d"], "application/x-www-form-urlencoded; charset=utf-8"), lambda: raw(ctx, env, ["a: b"], None), lambda: multi(ctx, env, [("a", b"x")], ctname="content-type"), lambda: multi(ctx, env, [("a", "")]),
             lambda: multi(ctx, env, [("a", b"big" * 700000)]), lambda: raw(ctx, env, ["long" * 400000]), lambda: raw(ctx, env, ["long" * 5300000]), lambda: multi(ctx, env, [("a", b"big" * 7100000)]), lambda: form(ctx, env, [("a", "big" * 7100000)]),
             *[lambda n=n, i=i: large(ctx, env, n, i) for i, n in enumerate(dictionary.large(140000, 71000000))],
             lambda: one(ctx, env, msg(env, "text/plain", ["abc"], [("Content-Length", "3")], "/own"), lambda h, b: None if b == b"abc" and [v for k, v in h if k.lower() == "content-length"] == ["3"] else "own framing"),
             lambda: one(ctx, env, msg(env, "text/plain", ["abc"], [("content-length", "3")], "/own"), lambda h, b: None if b == b"abc" and [v for k, v in h if k.lower() == "content-length"] == ["3"] else "own framing")]
    near = NEAR + sorted(s for s in dictionary.strings() if wire.re.fullmatch(r"[A-Za-z][A-Za-z0-9_-]*", s) and s.lower() not in wire.FRAMING | {"content-type", "host"})
    for k in near:
        for v in ("multipart/form-data", "application/x-www-form-urlencoded"):
            m = wire.Message("POST", "http://127.0.0.1:%d/near" % env.s.port, None, [(k, v), ("Host", "h")], ["a: b", "c: @d"], "/near")
            jobs.append(lambda m=m: one(ctx, env, m, lambda h, b: None if b == b"a: b\nc: @d" else "is not the declared one"))
        for v in ("chunked", "7"):
            jobs.append(lambda k=k, v=v: raw(ctx, env, ["some", "text"], extra=[(k, v)]))
            jobs.append(lambda k=k, v=v: form(ctx, env, [("a", "b é"), ("c", "")], extra=[(k, v)]))
        jobs.append(lambda k=k, v=v: multi(ctx, env, [("a", "b"), ("f", b"file")], extra=[(k, v)]))
    missing = [os.path.join(env.dir, "missing"), "missing", env.dir, os.path.join(env.dir, "missing", "x"), "/proc/self/mem", ""]
    good = os.path.join(env.dir, "good")
    util.write(good, b"g" * 1000)
    for restart in (False, True):
        for names in (["a"], ["a", "b"], ["file"]): jobs.append(lambda restart=restart, names=names: echo(ctx, env, restart, names))
    for p in missing:
        jobs.append(lambda p=p: unreadable(ctx, env, p))
        jobs.append(lambda p=p: unreadable(ctx, env, p, [good]))
    for i, j in enumerate(jobs):
        if i % nw == w: j()


def text(rng, cap=40): return texts.chars(rng, rng.randint(0, cap), "abc XYZ019=&+%?#;,/\\\"'<>é日😀~!@$^*()[]|:").strip(model.TRIM)


def fname(rng): return texts.chars(rng, rng.randint(1, 12), "abcXYZ019_-.é日[]").strip(model.TRIM) or "n"


def case(ctx, rng, env):
    r = rng.random()
    if r < .3: raw(ctx, env, [text(rng) for _ in range(rng.randint(1, 6))] + ["end"], rng.choice([None, "text/plain", "application/json", "multipart/form-data; boundary=own", "Application/X-Www-Form-Urlencoded"]), rng)
    elif r < .6: form(ctx, env, [(text(rng, 10).replace(":", "") .strip(model.TRIM) or "k", text(rng)) for _ in range(rng.randint(1, 8))], rng)
    else:
        fields = []
        for _ in range(rng.randint(1, 6)):
            n = fname(rng)
            if rng.random() < .5: fields.append((n, rng.choice([rng.choice(HOSTILE), os.urandom(0) + bytes(rng.getrandbits(8) for _ in range(rng.choice([3, 100, 5000])))])))
            else: fields.append((n, text(rng).lstrip("@" + model.TRIM).strip(model.TRIM)))
        multi(ctx, env, fields, rng)
