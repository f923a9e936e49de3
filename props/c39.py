"""C39: a call reaches the request declared under its name, else the native, else is an error."""
import re
from mon import build as B, cli, dictionary, gen, httpd, model, probe, util, wire

RULE = ("histories of declarations, redeclarations, bindings and calls over few names (names of natives, of variables, of tests, names that nearly are the same) as REPL lines and as projects of several files; every declaration has its own path, "
        "so the server's log tells which one each call reached; arguments print markers. Non-trivial: a distinct history with at least one call.")
ASSUMPTIONS = ["declarations of one source count for all of its calls, wherever they stand in it; where a name is declared twice the later one counts"]
FLOOR = 400
BUDGET = {"quick": 18, "thorough": 240}
NATIVES = ["println", "print", "format", "length", "append"]
NEAR = ["get", "Get", "GET", "get_", "_get", "get1", "gett", "ge", "r", "t", "post", "status", "json", "null", "lengths", "printl", "main", "exit", "eval"]


def build():
    B.cli()
    B.probe()


class Env: pass


def setup(ctx):
    e = Env()
    e.p = probe.Probe()

    def answer(conn):
        conn.request()
        parts = bytes(conn.raw[:4000]).split(b" ")
        conn.send(wire.response(headers=[("Path", parts[1].decode("latin-1") if len(parts) > 1 else "?")], body=b"[7]"))
        conn.fin()
        conn.drain()
    e.s = httpd.Server(answer)
    return e


def teardown(e):
    e.p.stop()
    e.s.close()


class World:
    def __init__(self):
        self.requests, self.hits, self.n = {}, [], 0
        self.m = model.Machine(call=self.call)

    def call(self, m, name, args):
        if name not in self.requests: return False, None
        path = self.requests[name]
        self.hits.append((name, path))
        return True, {"version": "HTTP/1.1", "status": 200, "reason": "OK", "headers": {"Path": [path]}, "body": "[7]", "json": [7]}

    def declare(self, name, port, asserts=""):
        """The text of a declaration, which counts from the source it stands in."""
        self.n += 1
        path = "/%s/%d" % (name, self.n)
        return "request %s `GET http://127.0.0.1:%d%s`%s" % (name, port, path, asserts), (name, path)


def pool(rng):
    words = [w for w in dictionary.words() if w not in gen.KEYWORDS and len(w) < 30]
    names = rng.sample(NATIVES, rng.choice([0, 1, 1, 2])) + rng.sample(NEAR, rng.randint(1, 3)) + ([rng.choice(words)] if words else [])
    if rng.random() < .2: names.append("x" * rng.choice([31, 32, 33, 64, 128, 255, 256, 257]))
    if rng.random() < .2:  # long names that differ in one place only
        n = "y" * rng.choice([15, 31, 63, 64, 127, 255, 300])
        names += [n, n + rng.choice("ab1_"), rng.choice("ab_") + n, n[:-1] + "z"][:rng.randint(2, 4)]
    return names


def argument(rng, world):
    world.m.steps += 1
    k = rng.random()
    if k < .4: return ("index", ("arr", [("call", "print" if "print" not in world.requests else "format", [("str", "<a%d>" % rng.randint(0, 99))]), ("int", rng.randint(0, 5))]), ("int", 1))
    if k < .7: return ("str", rng.choice(["", "abc", "é"]))
    return ("arr", [("int", 1)])


def expression(rng, world, names):
    r = rng.random()
    n = rng.choice(names)
    call = ("call", n, [argument(rng, world) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))])
    if n in NATIVES and n not in world.requests and rng.random() < .8:
        call = {"println": ("call", n, [("str", "<line>")]), "print": ("call", n, [("str", "<part>")]), "format": ("call", n, [("str", "{a}!"), ("int", 4)]), "length": ("call", n, [("str", "abcd")]), "append": ("call", n, [("arr", [("int", 1)]), ("int", 2)])}[n]
    if r < .5: return call
    if r < .6: return ("let", rng.choice(names), call)
    if r < .7: return ("let", n, gen.lit((lambda o: rng.choice([1, "v", None, [1], {"a": 1}, o, n, [o], {o: n}, {"name": o}]))(rng.choice(names))))
    if r < .8: return ("id", n)
    if r < .9: return ("call", n, [("call", rng.choice(names), [])])
    return ("if", ("bin", "==", ("int", 1), ("int", rng.choice([1, 2]))), [call], [("id", n)])


def paths(conns): return [bytes(c.raw[:4000]).split(b" HTTP/1.1")[0].decode("utf-8", "replace")[4:] for c in conns]


def session(ctx, rng, env):
    w = World()
    names = pool(rng)
    lines, want = [], []
    for _ in range(rng.randint(3, 14)):
        parts, declared = [], []
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            text, entry = w.declare(rng.choice(names), env.s.port, rng.choice(["", "", "[status == 200]"]))
            parts.append((text, None))
            declared.append(entry)
        w.requests.update(declared)  # of two in one source the later one counts
        for _ in range(rng.choice([0, 1, 1, 2])): parts.insert(rng.randint(0, len(parts)) if rng.random() < .6 else len(parts), (None, expression(rng, w, names)))
        if rng.random() < .12: parts.append(("test %s { %s() }" % (rng.choice(names), rng.choice(names)), None))
        if not parts: continue
        lines.append("; ".join(t or model.program([e]).rstrip("; ") for t, e in parts))
        w.m.out = []
        try: v = w.m.block([e for t, e in parts if e])
        except model.Error as e: v = e
        want.append((v, "".join(w.m.out)))
    if not lines: return
    steps, why = util.session(env.p, lines, idle=None, cpu=30)
    got = paths(env.s.take())
    replay = {"lines": lines, "got": got, "expected": w.hits}
    if not ctx.check(steps is not None, lambda: "%r: %s" % (lines, why), replay): return
    from mon import lang
    for i, (s, (v, out)) in enumerate(zip(steps, want)):
        try: d = lang.differs(s, v, out)
        except model.Unmodelled: continue
        ctx.check(d is None, lambda: "line %d of %r %s" % (i + 1, lines, d), replay)
    ctx.check(got == [p for _, p in w.hits], lambda: "of %r the calls reached %r, expected %r" % (lines, got, w.hits), replay)
    ctx.count("session_calls", len(got))
    ctx.count("lines", len(lines))
    ctx.seen(tuple(lines), lines[0][:200], bool(got))


TESTED = ["status == 200", "status == 201", 'body != ""', "1 == 1", "json[0] < 8", "status != 200"]


def redeclared(ctx, rng, env):
    """Declarations of few names, messages and assertions: a call has the message and the assertions of the last one, whatever it has in common with those before."""
    names, current, lines, want = rng.sample(NEAR, rng.randint(1, 2)), {}, [], []
    for _ in range(rng.randint(4, 14)):
        n = rng.choice(names)
        if n not in current or rng.random() < .5:
            path, tested = rng.choice(["/a", "/b", "/ab"]), rng.sample(TESTED, rng.choice([0, 0, 1, 1, 2, 3]))
            current[n] = path, tested
            lines.append("request %s `GET http://127.0.0.1:%d%s`%s" % (n, env.s.port, path, "[%s]" % ", ".join(tested) if tested or rng.random() < .5 else ""))
            want.append([])
            if rng.random() < .5: continue
            lines[-1] += "; %s()" % n
            want[-1].append((n, *current[n]))
        else:
            lines.append("%s()" % n)
            want.append([(n, *current[n])])
    steps, why = util.session(env.p, lines, idle=None, cpu=30)
    got = paths(env.s.take())
    replay = {"lines": lines, "got": got}
    if not ctx.check(steps is not None, lambda: "%r: %s" % (lines, why), replay): return
    ctx.check(got == [p for w in want for _, p, _ in w], lambda: "of %r the calls reached %r" % (lines, got), replay)
    for i, (s, w) in enumerate(zip(steps, want)):
        have = [(r["name"], [(a[0] if isinstance(a, list) else a["expr"]) for a in r["asserts"]]) for r in s["records"] if "asserts" in r]
        if len(have) != len(s["records"]): continue
        ctx.check([(n, [a.replace(" ", "").replace("(", "").replace(")", "") for a in t]) for n, t in have] == [(n, [a.replace(" ", "") for a in t]) for n, _, t in w], lambda: "line %d of %r tested %r, declared %r" % (i + 1, lines, have, w), replay)
        ctx.count("redeclared_calls", len(have))
    ctx.seen(tuple(lines), lines[0][:200], bool(got))


def project(ctx, rng, env):
    """Declarations, top-level code and tests divided over files in any order."""
    w = World()
    names = pool(rng)
    items = []
    for _ in range(rng.randint(1, 6)):
        text, entry = w.declare(rng.choice(names), env.s.port)
        items.append((text, entry, None))
    nodes = [("let", rng.choice(names), gen.lit(1))] if rng.random() < .5 else []
    for e in nodes: items.insert(rng.randint(0, len(items)), (model.program([e]), None, e))
    w.requests.update(entry for _, entry, _ in items if entry)
    body = [expression(rng, w, names) for _ in range(rng.randint(1, 4))]
    tname = rng.choice(names)
    items.insert(rng.randint(0, len(items)), ("test %s { %s }" % (tname, model.program(body)), None, None))
    other = rng.choice([n for n in names + ["other"] if n != tname])
    if rng.random() < .5: items.insert(rng.randint(0, len(items)), ("test %s { println(\"WRONG\") }" % other, None, None))
    try:
        for e in nodes: w.m.eval(e)
        w.m.out = []
        try: v = w.m.block(body)
        except model.Error as e: v = e
        printed = "".join(w.m.out)
    except model.Unmodelled: return
    with util.Scratch() as d:
        k, files = 0, {}
        for text, _, _ in items:
            files["%03d.fan" % k] = files.get("%03d.fan" % k, "") + text + "\n"
            if rng.random() < .5: k += 1
        for f, t in files.items(): util.write(d + "/" + f, t)
        r = cli.run(["test", tname, "-p", d], timeout=60)
    got = paths(env.s.take())
    replay = {"files": files, "got": got, "expected": w.hits, "out": r.text[-3000:]}
    if not cli.over(ctx, r, replay): return
    text = re.sub(r"=== TEST  (\S+)\n--- PASS  \1 \(\S+\)\n", "", r.text)
    blocks = re.findall(r"^--- PASS  (\S+) \(", r.text, re.M)
    if isinstance(v, model.Error): ok = text.startswith(printed) and text.count("\n", len(printed)) == 1
    else: ok = text == printed
    ctx.check(ok and r.code == 0, lambda: "test %s of %r printed %r, expected %r%s" % (tname, files, text, printed, " and an error" if isinstance(v, model.Error) else ""), replay)
    ctx.check(got == [p for _, p in w.hits], lambda: "test %s of %r reached %r, expected %r" % (tname, files, got, w.hits), replay)
    ctx.check(blocks == [n for n, _ in w.hits] or "WRONG" in text or "=== TEST" in printed, lambda: "test %s of %r reported %r, expected %r" % (tname, files, blocks, w.hits), replay)
    ctx.count("project_calls", len(got))
    ctx.seen(tuple(sorted(files.items())), str(files)[:200], bool(got))


def directed(ctx, env, w, nw):
    """Every native as a request, alone; its sisters keep working."""
    for i, n in enumerate(NATIVES + NEAR):
        if i % nw != w: continue
        port = env.s.port
        lines = ["request %s `GET http://127.0.0.1:%d/first`" % (n, port), "%s()" % n, "let %s = 5" % n, "%s(1, 2, 3)" % n, "%s" % n, "request %s `GET http://127.0.0.1:%d/second`" % (n, port), "%s(\"x\")" % n, "request %s2 `GET http://127.0.0.1:%d/third`" % (n, port), "%s()" % n, "test %s { 1 }" % n, "%s()" % n, "%s(missing)" % n, "%s(%s(), %s())" % (n, n, n)]
        want = ["/first", "/first", "/second", "/second", "/second", "/second", "/second", "/second"]
        others = [("length(\"ab\")", "Integer(2)"), ("append([], 1)", "Array([Integer(1)])"), ("format(\"{a}\", 1)", "String(\"1\")")]
        lines += [t for t, _ in others]
        steps, why = util.session(env.p, lines, idle=None)
        got = paths(env.s.take())
        replay = {"lines": lines, "got": got}
        if not ctx.check(steps is not None, lambda: "%r: %s" % (lines, why), replay): return
        if n in ("length", "append", "format"): want.append("/second")
        ctx.check(got == want, lambda: "of %r the calls reached %r, expected %r" % (lines, got, want), replay)
        for (t, x), s in zip(others, steps[-3:]):
            if not t.startswith(n + "("): ctx.check(s.get("ok") == x, lambda: "with %s declared, %s gave %r" % (n, t, s), replay)
        ctx.seen(("directed", n), n)


def case(ctx, rng, env):
    rng.choice([session] * 6 + [redeclared] + [project] * 3)(ctx, rng, env)
