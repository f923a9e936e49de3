"""C23: record files are valid Avro holding exactly what happened."""
import glob, json, os, random
from mon import avro, build as B, cli, dictionary, httpd, model, probe, texts, util, wire

RULE = ("library sessions write the records of real exchanges - every size of text around the encodings' boundaries, no to hundreds of headers, assertions and records, all kinds of text, failed exchanges, any test name, thread and iteration number - to the real writer; "
        "an independent strict Avro decoder reads the bytes by the schema embedded in them, and every field is compared with the record it was made from and with what the server sent and received. Real runs with record files are decoded likewise. Non-trivial: a distinct file with a record.")
FLOOR = 300
BUDGET = {"quick": 20, "thorough": 300}
EDGES = [0, 1, 2, 62, 63, 64, 65, 126, 127, 128, 129, 255, 256, 8190, 8191, 8192, 8193, 16383, 16384, 65535, 65536, 65537, 1048575, 1048576, 1048577]
NUMBERS = [0, 1, 31, 32, 63, 64, 127, 128, 8191, 8192, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1]


def build():
    B.probe()
    B.cli()
    B.preload("fast")


class Env: pass


def setup(ctx):
    e = Env()
    # some of the probes have clocks that run faster: their exchanges last up to days
    e.p = probe.Probe(env=B.fast([1009, 99991, 10000019][ctx.worker // 2 % 3]) if ctx.worker % 2 else None)
    e.answers = [httpd.OK]

    def answer(conn):
        conn.request()
        data = e.answers[conn.index % len(e.answers)]
        if data is None: return conn.rst()
        conn.send(data)
        conn.fin()
        conn.drain()
    e.s = httpd.Server(answer)
    return e


def teardown(e):
    e.p.stop()
    e.s.close()


FLAT = {"request_name": ("name",), "error": ("error",), "request_method": ("request", "method"), "request_url": ("request", "url"), "request_version": ("request", "version"), "request_headers": ("request", "headers"), "request_body": ("request", "body"),
        "response_version": ("response", "version"), "response_status": ("response", "status"), "response_reason": ("response", "reason"), "response_headers": ("response", "headers"), "response_body": ("response", "body"), "asserts": ("asserts",),
        **{"time_" + k: ("time", k) for k in ("start", "end", "total", "resolve", "connect", "write", "delay", "read")}}


def compare(ctx, what, got, name, thread, number, records, replay):
    """Decoded records of one iteration against the records they were made from."""
    if not ctx.check(len(got) == len(records), lambda: "%s: %d records decoded of %d" % (what, len(got), len(records)), replay): return
    for order, (g, r) in enumerate(zip(got, records)):
        ctx.check((g["name"], g["thread"], g["number"], g["order"]) == (name, thread, number, order), lambda: "%s: (test, thread, number, order) %r, expected %r" % (what, (g["name"][:100], g["thread"], g["number"], g["order"]), (name[:100], thread, number, order)), replay)
        if "request" not in r: continue
        for k, path in FLAT.items():
            v = r
            for p in path: v = v[p]
            if not ctx.check(g[k] == v, lambda: "%s: record %d: %s is %s, it was %s" % (what, order, k, repr(g[k])[:300], repr(v)[:300]), replay): return
        ctx.count("fields", len(FLAT) + 4)
    return True


def truth(ctx, what, got, sent, replay):
    """Decoded records against the exchanges themselves (in order): (path, response fields or None, the request as declared)."""
    for g, (path, f, m) in zip(got, sent):
        if m:
            v = (g["request_method"], g["request_url"], g["request_version"], [tuple(h) for h in g["request_headers"]])
            ctx.check(v == (m.method, m.url, m.version or "HTTP/1.1", m.headers), lambda: "%s: the request is recorded as %s, declared was %s" % (what, repr(v)[:500], repr((m.method, m.url, m.version, m.headers))[:500]), replay)
            lines = m.body or []
            # a form is known by its pairs
            b = [tuple(x.strip(model.TRIM) for x in l.split(":", 1)) for l in g["request_body"].split("\n")] if m.form and g["request_body"] else g["request_body"] if not m.form else []
            want = [tuple(x.strip(model.TRIM) for x in l.split(":", 1)) for l in lines if ":" in l] if m.form else wire.raw_body(lines).decode()
            ctx.check(b == want, lambda: "%s: the body of the request is recorded as %s, declared was %s" % (what, repr(g["request_body"])[:500], repr(lines)[:500]), replay)
            ctx.count("declared_forms" if m.form else "declared")
        ctx.check(g["request_url"].endswith(path), lambda: "%s: url %r of the request to %r" % (what, g["request_url"][:200], path[:200]), replay)
        if f is None: ctx.check(g["error"] != "", lambda: "%s: no error recorded for a failed exchange" % what, replay)
        else:
            v = (g["response_version"], g["response_status"], g["response_reason"], [tuple(h) for h in g["response_headers"]], g["response_body"], g["error"])
            ctx.check(v == f + ("",), lambda: "%s: the response is recorded as %s, sent was %s" % (what, repr(v)[:400], repr(f)[:400]), replay)


def play(ctx, env, lines, times, answers, facts=None):
    """One file: every line of the session is an iteration."""
    env.answers = [a[0] if isinstance(a, tuple) else a for a in answers]
    steps, reply = util.session(env.p, lines, writes=True, times=times, idle=60, cpu=60)
    env.s.take()
    replay = {"lines": [l[:3000] for l in lines], "times": [[t[0][:1000]] + t[1:] for t in times], "answers": [repr(a)[:1000] for a in answers]}
    if not ctx.check(steps is not None, lambda: "%r: %s" % ([l[:200] for l in lines], reply), replay): return
    data = bytes.fromhex(reply["file"])
    replay["file"] = reply["file"][:40000]
    what = "session %s" % [l[:120] for l in lines[-3:]]
    try:
        schema, sync, pos = avro.header(data)
        avro.valid(schema)
        blocks = list(avro.blocks(data))
    except avro.Bad as e: return ctx.violation("%s: the file is not valid: %s" % (what, e), replay)
    i = 0
    for s, t in zip(steps, times):
        if not s["records"]: continue
        got = []
        while i < len(blocks) and blocks[i][1] <= s["end"]:
            got += blocks[i][0]
            i += 1
        if not compare(ctx, what, got, t[0], t[1], t[2], s["records"], replay): return
        if facts: truth(ctx, what, got, facts[:len(got)], replay)
        if facts: facts = facts[len(got):]
        ctx.count("records", len(got))
        ctx.peak("records_in_an_iteration", len(got))
    ctx.check(i == len(blocks), lambda: "%s: %d blocks, %d belong to iterations" % (what, len(blocks), i), replay)
    ctx.count("bytes", len(data))
    ctx.seen((tuple(lines), repr(times), len(data)), what[:300], len(blocks) > 0)


def fact(version, status, reason, headers, body): return version, status, reason, [tuple(h) for h in headers], body


def response(rng, cap=9000):
    if rng.random() < .1: return None, None
    hs = texts.headers(rng) if rng.random() < .7 else []
    size = rng.choice(dictionary.sizes(cap)) if rng.random() < .2 else rng.randint(0, 60)
    body = texts.chars(rng, size, rng.choice(["abc", "é日😀 x", "{}[]:,\"1 a\n", "\0\x01 a\r\n"]))
    hs = [(k, v.strip()) for k, v in hs]
    version, status, reason = rng.choice(["HTTP/1.1", "HTTP/1.0"]), rng.choice([200, 200, 404, 500, 100, 999, 63, 64, 65535]), rng.choice(["OK", "Not Found", "", "ä b"])
    return wire.response(version=version, status=status, reason=reason, headers=hs, body=body), fact(version, status, reason, hs, body)


def sized(ctx, env, n, where):
    """A text, or a number of things, of exactly n at one place."""
    url = "http://127.0.0.1:%d/x" % env.s.port
    x = "x" * n
    req, answer, times, name = ("GET %s" % url), (b"HTTP/1.1 200 OK\r\n\r\nb", None), ["t", 0, 0], "q"
    asserts = ""
    call = "q()"
    if where == "body": answer = (wire.response(body=x), None)
    elif where == "header": answer = (wire.response(headers=[("A", x)]), None)
    elif where == "header name": answer = (wire.response(headers=[("A" + x, "b")]), None)
    elif where == "headers": answer = (wire.response(headers=[("A", "b")] * n), None)
    elif where == "reason": answer = (wire.response(reason=x), None)
    elif where == "request body": req += "\n\n" + x
    elif where == "request header": req += "\nA: " + x
    elif where == "request headers": req += "\nA: b" * n
    elif where == "path": req += x
    elif where == "test": times = [x, 0, 0]
    elif where == "request name": name = "q" + x
    elif where == "asserts": asserts = " [%s]" % ", ".join(["status == 200"] * n)
    elif where == "left": answer, asserts = (wire.response(body=x), None), " [body == 1]"
    elif where == "right": asserts = ' [1 == "%s"]' % x
    elif where == "records": call = "; ".join(["%s()" % name] * n) or "1"
    call = call.replace("q()", name + "()")
    play(ctx, env, ["request %s `%s`%s" % (name, req, asserts), call, call], [["none", 9, 9], times, times[:2] + [1]], [answer])
    ctx.count("sizes")


PLACES = ["body", "header", "header name", "reason", "request body", "request header", "path", "test", "request name", "left", "right"]
COUNTS = ["headers", "request headers", "asserts", "records"]


def directed(ctx, env, w, nw):
    jobs = []
    for n in EDGES:
        for where in PLACES:
            if n <= 70000 or where in ("body", "request body", "test"): jobs.append(lambda n=n, where=where: sized(ctx, env, n, where))
        for where in COUNTS:
            if n <= (130 if where == "records" else 300 if ctx.quick else 8200): jobs.append(lambda n=n, where=where: sized(ctx, env, n, where))
    for n in dictionary.sizes(1100 if ctx.quick else 9000):
        if n > 130: jobs.append(lambda n=n: sized(ctx, env, n, "records"))
    line = ["request q `GET http://127.0.0.1:%d/`" % env.s.port]
    ts = [["", t, n] for t in NUMBERS for n in (0, 64, (1 << 32) - 1)] + [["", 0, n] for n in NUMBERS]
    jobs.append(lambda: play(ctx, env, line + ["q()"] * len(ts), [["", 0, 0]] + ts, [(b"HTTP/1.1 200 OK\r\n\r\n", None)]))
    jobs.append(lambda: play(ctx, env, line, [["", 0, 0]], [(b"HTTP/1.1 200 OK\r\n\r\n", None)]))
    for s in (0, 1, 63, 64, 8191, 8192, 32767, 32768, 65535): jobs.append(lambda s=s: play(ctx, env, line + ["q()"], [["", 0, 0], ["s", 1, 2]], [(b"HTTP/1.1 %d x\r\n\r\n" % s, None)]))
    # iterations without requests between others, and iterations that end in an error
    jobs.append(lambda: play(ctx, env, line + ["1", "q()", "2", "3", "q(); q()", "", "q(); missing", "q()"], [["t", 0, i] for i in range(9)], [(b"HTTP/1.1 200 OK\r\n\r\n", None), (None, None)]))
    jobs = [lambda i=i: case(ctx, random.Random(i), env) for i in range(120)] + jobs
    for i, j in enumerate(jobs):
        if i % nw == w: j()
    whole_run(ctx, env, random.Random(w))


def whole_run(ctx, env, rng):
    """Files of real runs: names of threads, iterations without requests, several tests, a prefix for the files."""
    answers = [response(rng) for _ in range(7)]
    env.answers = [a[0] for a in answers]
    source = "let i = 0\nrequest q `GET http://127.0.0.1:%d/`\ntest t { if (i == 2) { 0 } else { q(); q() } let i = i + 1 }\ntest none { 1 }\ntest other { q() }\ntest failing { q(); missing }\n" % env.s.port
    for args, pod, want in ((["t", "-t", "3", "-n", "13"], "", [2 * 4, 2 * 3, 2 * 3]), ([], "pod-7_", [0, 1, 1, 2]), (["none", "-t", "2", "-n", "9"], "", [0, 0]), (["t", "-t", "12", "-n", "25"], "", [4] * 12), (["t", "-t", "105", "-n", "105"], "", [2] * 105)):
        with util.Scratch() as d:
            util.write(d + "/s/a.fan", source)
            os.mkdir(d + "/r")
            r = cli.run(["test"] + args + ["-p", d + "/s", "-r", d + "/r"], timeout=120, env={"POD": pod} if pod else None)
            env.s.take()
            if not cli.over(ctx, r): return
            files = {os.path.basename(f): open(f, "rb").read() for f in sorted(glob.glob(d + "/r/*"))}
        replay = {"args": args, "source": source, "files": {f: x.hex()[:3000] for f, x in files.items()}, "err": repr(r.err[-500:])}
        recs = {}
        for f, x in files.items():
            try:
                avro.valid(avro.header(x)[0])
                recs[f] = avro.decode(x)
            except avro.Bad as e: return ctx.violation("test %s: file %s is not valid: %s" % (args, f, e), replay)
        ctx.check(sorted(recs) == ["%s%06d" % (pod, i) for i in range(len(want))], lambda: "test %s with POD=%r: files %r" % (args, pod, sorted(recs)), replay)
        ctx.check(sorted(map(len, recs.values())) == sorted(want), lambda: "test %s: %r records, expected %r" % (args, sorted(map(len, recs.values())), want), replay)
        for f, rs in recs.items():
            ctx.check(all(x["thread"] == int(f[-6:]) for x in rs), lambda: "test %s: file %s has the threads %r" % (args, f, {x["thread"] for x in rs}), replay)
            facts = [repr(a[1]) for a in answers if a[1]]
            for x in rs: ctx.check(bool(x["error"]) or repr(fact(x["response_version"], x["response_status"], x["response_reason"], x["response_headers"], x["response_body"])) in facts, lambda: "test %s: recorded %s was not sent" % (args, repr(x)[:600]), replay)
            if args[:1] == ["t"]:
                numbers = [i for i in range(len(rs) // 2 + 1) if i != 2 or len(rs) // 2 < 2]
                ctx.check([(x["number"], x["order"]) for x in rs] == [(i, o) for i in numbers[:len(rs) // 2] for o in (0, 1)], lambda: "test %s: file %s: (iteration, order) %r" % (args, f, [(x["number"], x["order"]) for x in rs]), replay)
        ctx.count("runs")


def case(ctx, rng, env):
    if rng.random() < .03: return whole_run(ctx, env, rng)
    names = rng.sample(["a", "get", "post_item", "Zed", "r2"], rng.randint(1, 3))
    paths = {n: rng.choice(["/", "/a?b=c", "/%20", "/x"]) + n for n in names}
    defs, declared = [], {}
    for n in names:
        def message():
            form = rng.random() < .3
            m = wire.Message(rng.choice(wire.METHODS), "http://127.0.0.1:%d%s" % (env.s.port, paths[n]), rng.choice([None, "HTTP/1.1", "HTTP/1.0"]), texts.headers(rng), [texts.chars(rng, rng.randint(0, 40)).rstrip(model.TRIM) for _ in range(rng.randint(1, 4))] if rng.random() < .5 else None)
            m.form = form
            if form:
                m.headers.append((rng.choice(["Content-Type", "content-type"]), rng.choice(["application/x-www-form-urlencoded", "multipart/form-data"])))
                m.body = ["%s: %s" % (texts.chars(rng, rng.randint(1, 6), "abcé_1"), texts.chars(rng, rng.randint(0, 12), "abcé :1")) for _ in range(rng.randint(0, 6))]
            return m
        m = message()
        while "`" in m.text() or "{" in m.text(): m = message()
        declared[n] = m
        t = m.text()
        asserts = rng.sample(['status == 200', 'body != "x"', "json.id == 7", "missing == 1", "length(body) > 3", "headers == {}", 'reason == "OK"', "status / 0 == 1", 'format("{a}é", status) == "200é"'], rng.randint(0, 4))
        defs.append("request %s `%s`%s" % (n, t, " [%s]" % ", ".join(asserts) if asserts else ""))
    # the server's answer depends on the order of the calls only
    calls, lines = [], []
    for _ in range(rng.randint(1, 6)):
        ns = [rng.choice(names) for _ in range(rng.choice([0, 1, 1, 2, 5, 12]))]
        calls += ns
        lines.append("; ".join(["%s()" % n for n in ns] + rng.choice([[], ["1"], ["missing"]])) or "0")
    if any(d.split("`")[1].lstrip().startswith("HEAD") for d in defs): answers = [(httpd.OK, fact("HTTP/1.1", 200, "OK", [("Content-Length", "2")], "ok"))]
    else: answers = [response(rng) for _ in range(max(1, len(calls)))]
    facts = [(paths[n], answers[i % len(answers)][1], declared[n]) for i, n in enumerate(calls)]
    times = [["", 0, 0]] * len(defs) + [[rng.choice(["t", "", "é test", "x" * 64, "a\nb"]), rng.choice(NUMBERS + [rng.randint(0, 100)]), rng.choice(NUMBERS)] for _ in lines]
    play(ctx, env, defs + lines, times, answers, facts)
