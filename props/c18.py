"""C18: a request is PASS exactly when every assertion of it is true of its own response."""
import json, re
from mon import build as B, dictionary, gen, httpd, lang, model, probe, util, wire

RULE = ("requests with random lists of assertions (comparisons of operand trees over the response's fields, some of which cannot be evaluated) are called in random order against a server that gives each call its own response, some of which fail; "
        "number, order, text, operand values and result of the reported comparisons, the printed lines and the verdict are compared with the reference. Non-trivial: a distinct list of assertions with a response.")
FLOOR = 600
BUDGET = {"quick": 20, "thorough": 300}
DEFAULT = {"version": "", "status": 0, "reason": "", "headers": {}, "body": ""}
CMP = ["==", "!=", "<", ">", "<=", ">="]
# what is silently dropped instead of being judged (known findings): the assertion, and the verdict it must lead to
DROPPED = {"literal": "false", "logical": 'status == 200 && body == "no"', "parenthesized": "(status == 404)"}


def build(): B.probe()


class Env: pass


def setup(ctx):
    e = Env()
    e.p = probe.Probe()
    e.answers = []
    e.s = httpd.Server(lambda conn: answer(e, conn))
    return e


def teardown(e):
    e.p.stop()
    e.s.close()


def answer(e, conn):
    data = e.answers[min(conn.index, len(e.answers) - 1)]
    conn.request()
    if data is None: return conn.rst()
    conn.send(data)
    conn.fin()
    conn.drain()


class Operands(gen.Gen):
    """Trees whose atoms are mostly parts of the response."""

    def __init__(self, rng, fields):
        super().__init__(rng, effects=False, lets=False, risky=.06)
        self.atoms = {}
        for n, v in fields.items():
            self.add(("id", n), v)
        self.add(("id", rng.choice(["missing", "name", "_u"])), None)
        if rng.random() < .1: self.add(("field", ("id", "missing"), "x"), None)
        if rng.random() < .1: self.add(("index", ("id", "status"), ("int", 0)), None)

    def add(self, e, v, depth=0):
        self.atoms.setdefault(model.kind(v), []).append((e, v))
        if depth > 3: return
        if isinstance(v, dict):
            for k, x in list(v.items())[:4]:
                self.add(("field", e, k) if re.fullmatch("[a-z]+", k) and k not in gen.KEYWORDS and k not in gen.NATIVES and self.rng.random() < .7 else ("index", e, ("str", k)), x, depth + 1)
        if isinstance(v, list):
            for i, x in enumerate(v[:3]): self.add(("index", e, ("int", i)), x, depth + 1)

    def pick(self, kind):
        have = self.atoms.get(kind)
        return self.rng.choice(have)[0] if have and self.rng.random() < .9 else None


def text_value(rng):
    return rng.choice(["", "ok", "t", "a b", "é", "200", "null", "OK", "x" * 50, "日本"])


def json_value(rng, depth=2):
    r = rng.random()
    if r < .25: return rng.choice([0, 1, -1, 7, 200, 404, 65536, (1 << 53) + 1, -3])
    if r < .4: return rng.choice([.5, 2.0, -1.25, 3.75, 100.0])
    if r < .6: return text_value(rng)
    if r < .75 or depth == 0: return rng.choice([True, False, None])
    if r < .87: return [json_value(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return {rng.choice(["id", "name", "list", "ok", "v", "x y"]): json_value(rng, depth - 1) for _ in range(rng.randint(0, 3))}


def response(rng):
    """(what is sent, the fields the assertions see)"""
    if rng.random() < .1: return None, DEFAULT
    status, reason = rng.choice([(200, "OK"), (200, "OK"), (201, "Created"), (404, "Not Found"), (500, "Internal Server Error"), (204, "No Content"), (302, "Found")])
    hs = [(rng.choice(["X-A", "Etag", "x", "Server", "Set-Cookie"]), rng.choice(["1", "a=b; c", "é", "200", "x"])) for _ in range(rng.randint(0, 4))]
    headers = {}
    for k, v in hs: headers.setdefault(k, []).append(v)
    fields = {"version": rng.choice(["HTTP/1.1", "HTTP/1.0"]), "status": status, "reason": reason, "headers": headers}
    if rng.random() < .7:
        j = json_value(rng, 3) if rng.random() < .3 else {k: json_value(rng) for k in ("id", "name", "list", "ok")}
        body = json.dumps(j, ensure_ascii=False)
        fields["json"] = j
    else: body = rng.choice(["plain text!", "hello, world @", "ok? }", "<a>"])
    fields["body"] = body
    return wire.response(version=fields["version"], status=status, reason=reason, headers=hs, body=body), fields


def comparison(rng, g):
    r = rng.random()
    op = rng.choice(CMP)
    have = [x for xs in g.atoms.values() for x in xs]
    if r < .45:  # a field and what it is, or something near it
        e, v = rng.choice(have)
        if rng.random() < .5 or not isinstance(v, (int, float, str)) or isinstance(v, bool): o = gen.lit(v) if lang.size(gen.lit(v)) < 40 and '"' not in json.dumps(model_text(v)) else e
        elif isinstance(v, str): o = gen.lit((v + "x") if rng.random() < .5 else v[:-1]) if '"' not in v and "`" not in v else e
        else: o = gen.lit(v + rng.choice((-1, 1)))
        return ("bin", op, *((e, o) if rng.random() < .7 else (o, e)))
    k = rng.choice(["int", "str", "float", "arr", "map", "bool", "null"])
    return ("bin", op, g.expr(k, rng.randint(0, 3)), g.expr(k if rng.random() < .8 else None, rng.randint(0, 3)))


def model_text(v):
    """Whether v can be written as a literal: its strings, without quotes."""
    if isinstance(v, str): return "q" if '"' in v or "`" in v else ""
    if isinstance(v, dict): return "".join(model_text(k) + model_text(x) for k, x in v.items()).replace("q", "q")
    if isinstance(v, list): return "".join(map(model_text, v))
    return ""


def shows(t, v):
    """Whether t is the text of the value v."""
    try:
        if isinstance(v, list): return model.same(model.read_debug("Array(%s)" % t), v)
        if isinstance(v, dict): return model.same(model.read_debug("Map(%s)" % t), v)
    except ValueError: return False
    return t == model.text(v)


def operand(e, fields):
    try: return model.Machine(fields).eval(e)
    except model.Error: return None


def expected(trees, fields):
    """[(left, op, right, result)] of the assertions."""
    out = []
    for _, op, l, r in trees:
        a, b = operand(l, fields), operand(r, fields)
        out.append((a, op, b, model.binary(op, a, b)))
    return out


def play(ctx, env, defs, calls, data, fields, outer={}):
    """defs: name -> trees; calls: names in order; data/fields per call; outer: variables bound before, which assertions do not see."""
    binds = [model.program([("let", n, gen.lit(v))]) for n, v in outer.items()]
    lines = binds + ["request %s `GET http://127.0.0.1:%d/%s`%s" % (n, env.s.port, n, " [%s]" % ", ".join(model.layout(model.tokens(t)) for t in ts) if ts is not None else "") for n, ts in defs.items()]
    env.answers = data
    lines += ["%s()" % n for n in calls]
    steps, why = util.session(env.p, lines, idle=60, cpu=30)
    env.s.take()
    replay = {"lines": lines, "answers": [repr(d)[:2000] for d in data]}
    if not ctx.check(steps is not None, lambda: "%r: %s" % (lines, why), replay): return
    for s, n, d, f in zip(steps[len(binds) + len(defs):], calls, data, fields):
        trees = defs[n] or []
        what = "%s against %r" % (lines[len(binds) + list(defs).index(n)], d)
        try: want = expected(trees, f)
        except model.Unmodelled:
            ctx.count("unmodelled")
            continue
        records = s.get("records", [])
        if not ctx.check("ok" in s and len(records) == 1, lambda: "%s: gave %r" % (what, repr(s)[:600]), replay): continue
        rec = records[0]
        verdict = d is not None and all(x[3] for x in want)
        block = rec["display"].split("\n") if not any("\n" in str(x) for x in want) else None
        if "asserts" in rec:
            got = rec["asserts"]
            if not ctx.check(len(got) == len(want), lambda: "%s: %d comparisons are reported for %d assertions: %r" % (what, len(got), len(want), got), replay): continue
            for a, (l, op, r, res), t in zip(got, want, trees):
                ctx.check(a["compare"] == op and a["result"] == res and shows(a["left"], l) and shows(a["right"], r), lambda: "%s: %s is reported as %r, expected %r" % (what, model.layout(model.tokens(t)), a, (l, op, r, res)), replay)
                ctx.count("true" if res else "false")
            lines_want = ["=== TEST  " + n] + ["%s => %s %s %s => %s" % (a["expr"], a["left"], a["compare"], a["right"], str(a["result"]).lower()) for a in got]
            shown = rec["display"]
            ctx.check(shown.startswith("\n".join(lines_want) + "\n--- %s  %s (" % ("PASS" if verdict else "FAIL", n)) and shown.endswith(")"), lambda: "%s: shown as %r, expected %r and %s" % (what, shown, lines_want, verdict), replay)
        else: ctx.check(("\n--- %s  %s (" % ("PASS" if verdict else "FAIL", n)) in rec["display"], lambda: "%s: shown as %r, expected verdict %s" % (what, rec["display"], verdict), replay)
        ctx.count("PASS" if verdict else "FAIL")
        ctx.peak("assertions", len(want))
        ctx.seen((n, [model.tokens(t) for t in trees], repr(d)), "%s => %s" % (lines[len(binds) + list(defs).index(n)][:150], "PASS" if verdict else "FAIL"), bool(trees))


def directed(ctx, env, w, nw):
    body = b'{"id": 7, "f": 2.5, "s": "t", "b": true, "n": null, "a": [1, 2], "m": {"k": "v"}}'
    f = {"version": "HTTP/1.1", "status": 200, "reason": "OK", "headers": {"X": ["1", "2"]}, "body": body.decode(), "json": json.loads(body)}
    data = wire.response(headers=[("X", "1"), ("X", "2")], body=body)
    J = lambda k: ("field", ("id", "json"), k)
    atoms = [("id", "status"), ("id", "version"), ("id", "reason"), ("id", "headers"), ("id", "body"), ("id", "json"), ("id", "nothing"), J("id"), J("f"), J("s"), J("b"), J("n"), J("a"), J("m"), J("zz"), ("index", J("a"), ("int", 5)),
             ("field", J("id"), "x"), ("index", ("index", ("id", "headers"), ("str", "X")), ("int", 1)), ("int", 200), ("int", 7), ("float", "2.5", 2.5), ("float", "200.0", 200.0), ("str", "OK"), ("str", "t"), ("null",), ("bool", True),
             ("bin", "/", ("int", 1), ("int", 0)), ("bin", "+", ("id", "status"), ("int", 1)), ("call", "length", [("id", "body")]), ("call", "length", [("id", "json")]), ("call", "nothing", []), ("if", J("b"), [("int", 200)], [("int", 1)])]
    # every comparison of every pair of operands, 40 to a request
    pairs = [("bin", op, a, b) for a in atoms for b in atoms for op in CMP]
    chunks = [pairs[i:i + 40] for i in range(0, len(pairs), 40)]
    mine = [c for i, c in enumerate(chunks) if i % nw == w]
    for c in mine: play(ctx, env, {"r": c}, ["r"], [data], [f])
    # exactly one false assertion, at every place of lists of every length
    true, false = ("bin", "==", ("id", "status"), ("int", 200)), ("bin", "!=", J("id"), ("int", 7))
    for n in range(0, 9):
        if n % nw == w:
            for k in range(n + 1): play(ctx, env, {"r": [false if i == k else true for i in range(n)]}, ["r"], [data], [f])
            # a failed exchange is FAIL however few, and however true, its assertions
            play(ctx, env, {"r": [("bin", "==", ("id", "status"), ("int", 0))] * n}, ["r"], [None], [DEFAULT])
    for i, n in enumerate(x for x in dictionary.sizes(1100 if ctx.quick else 9000) if x > 8):
        if i % nw == w:
            for k in {0, n // 2, n - 1, None}: play(ctx, env, {"r": [false if j == k else true for j in range(n)]}, ["r"], [data], [f])
    if w == 0:
        play(ctx, env, {"r": None, "q": []}, ["r", "q", "r"], [data, data, None], [f, f, DEFAULT])
        for sig, text in DROPPED.items():
            env.answers = [data]
            line = "request r `GET http://127.0.0.1:%d/` [%s] r()" % (env.s.port, text)
            steps, why = util.session(env.p, [line], idle=60)
            env.s.take()
            if ctx.check(steps is not None, lambda: "%r: %s" % (line, why), {"line": line}):
                d = steps[0]["records"][0]["display"] if steps[0].get("records") else repr(steps)
                ctx.check("--- FAIL  r (" in d, lambda: "the assertion %s of a response 200 is not judged: %r" % (text, d), {"line": line, "steps": steps}, sig)


def case(ctx, rng, env):
    defs, calls, data, fields = {}, [], [], []
    given = [response(rng) for _ in range(rng.randint(1, 4))]
    # an assertion is about the response: it sees none of the caller's variables
    outer = {}
    if rng.random() < .4:
        for n in rng.sample(["version", "status", "reason", "headers", "body", "mine", "limit", "wanted_" + "x" * rng.choice([1, 30, 100])], rng.randint(1, 5)): outer[n] = rng.choice([200, 404, "OK", "HTTP/1.1", "ok", None, True, 7, [1, 2], {"a": 1}, 2.5])
    pool = ["a", "get", "post_item", "Zed", "r2", "Q" * rng.choice([16, 40, 128]), rng.choice([x for x in dictionary.words() if x not in gen.KEYWORDS and x not in gen.NATIVES])]
    for n in rng.sample([x for x in dict.fromkeys(pool) if x not in outer], rng.randint(1, 3)):
        g = Operands(rng, dict(outer, **rng.choice(given)[1]))
        ts = [comparison(rng, g) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))]
        ts = [t for t in ts if lang.size(t) < 120 and "`" not in "".join(model.tokens(t))]
        if rng.random() < .1: ts = None
        # mostly true ones: keep what holds of the response it was made for
        elif rng.random() < .5:
            f = rng.choice(given)[1]
            try: ts = [t for t, x in zip(ts, expected(ts, f)) if x[3]]
            except model.Unmodelled: pass
        defs[n] = ts
    for _ in range(rng.randint(1, 6)):
        calls.append(rng.choice(list(defs)))
        d, f = rng.choice(given)
        data.append(d)
        fields.append(f)
    play(ctx, env, defs, calls, data, fields, outer)
