"""C38: the same code does the same, however it is run."""
import re
from mon import build as B, cli, gen, httpd, lang, model, util, wire

RULE = ("random programs (bindings, control flow, prints, native and request calls, errors in the middle) are run by eval, as REPL lines, as the top level of a project (in one file and divided over several), as the body of a test (named, unnamed, repeated, with statistics and recording), "
        "and inside a block; the whole standard output of each way, the requests made, and the error message must be those of the reference semantics and of all the other ways. Non-trivial: a distinct program and way.")
ASSUMPTIONS = ["how the message of an error is worded is not judged, only that all ways give the same one", "requests made at the top level of a project belong to no test and are not reported"]
FLOOR = 800
BUDGET = {"quick": 20, "thorough": 300}
TIME = re.compile(r"\(\d+(?:\.\d+)?(?:ns|µs|ms|s)\)$", re.M)
BLOCK = "=== TEST  %s\nstatus == 200 => 200 == 200 => true\n--- PASS  %s (T)\n"
WRONG = [("bin", "/", ("int", 1), ("int", 0)), ("id", "unbound_name"), ("call", "unknown", []), ("bin", "+", ("int", 1), ("str", "x")), ("call", "length", [])]
ANSWER = {"version": "HTTP/1.1", "status": 200, "reason": "OK", "headers": {"K": ["v"]}, "body": "[1, 2]", "json": [1, 2]}


def build(): B.cli()
def setup(ctx): return httpd.Server(httpd.respond(wire.response(headers=[("K", "v")], body=b"[1, 2]")))
def teardown(env): env.close()


class World:
    """The reference semantics with requests; remembers what was asked for."""

    def __init__(self, names=None):
        self.m = model.Machine(names, call=self.call)
        self.hits, self.blocks = [], []

    def call(self, m, name, args):
        if name not in ("ask", "tell"): return False, None
        self.hits.append("/%s/%s" % (name, model.text(m.names.get("a1"))) if name == "tell" else "/ask")
        self.blocks.append(BLOCK % (name, name))
        return True, dict(ANSWER)

    def run(self, exprs):
        """(value or Error, printed, blocks) of one more execution."""
        self.m.out, self.blocks = [], []
        try: v = self.m.block(exprs)
        except model.Error as e: v = e
        return v, "".join(self.m.out), "".join(self.blocks)


def requests(port): return "request ask `GET http://127.0.0.1:%d/ask`[status == 200]\nrequest tell `GET http://127.0.0.1:%d/tell/{a1}`[status == 200]\n" % (port, port)


def paths(conns): return [bytes(c.raw[:400]).split(b" HTTP/1.1\r\n")[0].decode("utf-8", "replace")[4:] for c in conns]


def ways(rng, exprs, env, everything):
    """[(name, how to run it: (args, files, stdin), expected [(printed, value or Error or None, blocks)], hits)]"""
    req = requests(env.port)
    one = model.program(exprs)
    style = rng.choice(["plain", "tight", "loose"])
    text = model.program(exprs, rng, style)
    out = []
    w = World()
    v, printed, blocks = w.run(exprs)
    hits = list(w.hits)
    shown = v if isinstance(v, model.Error) else model.text(v)
    done = [] if isinstance(v, model.Error) else ["<done>\n"]
    out.append(("eval", (["eval", req + text], None, None), [printed, shown, "\n"], hits))
    if "\n" not in one and "\r" not in one:
        out.append(("a REPL line", ([], None, req.replace("\n", ";") + "\n" + one + "\n"), ["null\n", printed, shown, "\n"], hits))
        # a line per expression; after an error the session would go on
        w = World()
        want = ["null\n"]
        for i, e in enumerate(exprs):
            x, p, _ = w.run([e])
            want += [p, x if isinstance(x, model.Error) else model.text(x), "\n"]
        out.append(("REPL lines", ([], None, req.replace("\n", ";") + "\n" + "\n".join(model.program([e]) for e in exprs) + "\n"), want, w.hits))
    tail = "test t { println(\"<done>\") }\n"
    top = [printed] + (done or [v, "\n"])
    out.append(("the top level of a run", (["test", "t"], {"a.fan": req + text + "\n" + tail}, None), top, hits))
    out.append(("the top level of an unnamed run", (["test"], {"a.fan": tail + text + "\n" + req}, None), top, hits))
    if len(exprs) > 1:
        cuts = sorted(rng.sample(range(1, len(exprs)), rng.randint(1, len(exprs) - 1)))
        parts = [exprs[i:j] for i, j in zip([0] + cuts, cuts + [len(exprs)])]
        files = {"%02d%s.fan" % (i, rng.choice(["", "x", "/y"])): model.program(p, rng, style) + rng.choice(["", "\n"]) for i, p in enumerate(parts)}
        files["zz.fan" if rng.random() < .5 else "0.fan"] = req + tail
        out.append(("files", (["test", "t"], files, None), top, hits))
    err = [v, "\n"] if isinstance(v, model.Error) else []
    out.append(("a test", (["test", "t"], {"a.fan": req + "test t {" + text + "}"}, None), [printed] + err + [blocks], hits))
    out.append(("an unnamed test", (["test"], {"a.fan": "test t {" + text + "}\n" + req}, None), [printed] + err + [blocks], hits))
    # bindings made by the top level, the rest in the test
    k = rng.randint(0, len(exprs))
    if k and not any(isinstance(World().run(exprs[:k])[0], model.Error) for _ in (0,)):
        w = World()
        _, p1, _ = w.run(exprs[:k])
        x, p2, b2 = w.run(exprs[k:])
        out.append(("top level and test", (["test", "t"], {"a.fan": req + model.program(exprs[:k], rng, style) + "\ntest t {" + model.program(exprs[k:], rng, style) + "}"}, None), [p1, p2] + ([x, "\n"] if isinstance(x, model.Error) else []) + [b2], w.hits))
    n = rng.randint(2, 4)
    w = World()
    want = []
    for _ in range(n):
        x, p, b = w.run(exprs)
        want += [p] + ([x, "\n"] if isinstance(x, model.Error) else []) + [b]
        if isinstance(x, model.Error): break
    out.append(("%d iterations" % n, (["test", "t", "-n", str(n)], {"a.fan": req + "test t {" + text + "}"}, None), want, w.hits))
    out.append(("%d recorded iterations" % n, (["test", "t", "-n", str(n), "-r", "."], {"a.fan": req + "test t {" + text + "}"}, None), want, w.hits))
    # an iteration that differs from those before it
    turn, k = ("id", "turn"), rng.randint(1, n)
    body = [("let", "turn", ("bin", "+", turn, ("int", 1)))] + exprs
    body.insert(rng.randint(1, len(body)), ("if", ("bin", "==", turn, ("int", k)), rng.choice([[WRONG[rng.randrange(len(WRONG))]], [("call", "ask", []), ("id", "unbound_name")], [("call", "println", [("str", "<other>")])], [("let", "a1", ("str", "z"))]]), [("call", "ask", [])]))
    w = World()
    w.m.eval(("let", "turn", ("int", 0)))
    want = []
    for _ in range(n + 1):
        x, p, b = w.run(body)
        want += [p] + ([x, "\n"] if isinstance(x, model.Error) else []) + [b]
        if isinstance(x, model.Error): break
    out.append(("%d differing iterations" % (n + 1), (["test", "t", "-n", str(n + 1)], {"a.fan": "let turn = 0\n" + req + "test t {" + model.program(body, rng, style) + "}"}, None), want, w.hits))
    out.append(("a block", (["eval", req + "if (true) {" + text + "}"], None, None), [printed, shown, "\n"], hits))
    out.append(("a block of a test", (["test", "t"], {"a.fan": req + "test t { if (false) { nothing } else { " + text + "} }"}, None), [printed] + err + [blocks], hits))
    if not everything: out = rng.sample(out, min(len(out), 5))
    return out


def matches(text, want):
    """Whether a run printed what it had to; Errors stand for one line of any text. Gives the error lines, or None."""
    pattern = "".join("(.+)" if isinstance(p, model.Error) else re.escape(p) for p in want)
    m = re.fullmatch(pattern, text, re.S)
    if m: return [g for g in m.groups() if g is not None]
    return None


def judge(ctx, env, rng, exprs, everything=False):
    try: todo = ways(rng, exprs, env, everything)
    except (model.Unmodelled, RecursionError):
        ctx.count("unmodelled")
        return
    messages = {}
    for name, (args, files, stdin), want, hits in todo:
        if any("\0" in a for a in args): continue
        with util.Scratch() as d:
            for f, t in (files or {}).items(): util.write(d + "/" + f, t)
            r = cli.run(args + (["-p", d] if args[:1] == ["test"] and rng.random() < .5 else []), cwd=d, stdin=stdin, timeout=60)
        got = paths(env.take())
        replay = {"way": name, "args": args, "files": files, "stdin": stdin, "want": [str(w) for w in want], "out": r.text[-6000:], "err": r.err[-1500:].decode("utf-8", "replace"), "requests": got}
        if not cli.over(ctx, r, replay): continue
        what = "as %s, %s" % (name, model.program(exprs)[:600])
        ctx.check(r.code == 0, lambda: "%s: exit %r, %s" % (what, r.code, r.err[-300:]), replay)
        text = TIME.sub("(T)", r.text)
        lines = matches(text, want)
        ctx.check(lines is not None, lambda: "%s: printed %r, expected %r" % (what, text[:600], [str(w) if not isinstance(w, model.Error) else w for w in want]), replay)
        ctx.check([g.split(" ")[0] for g in got] == [h.split(" ")[0].split("#")[0] for h in hits], lambda: "%s: requests %r, expected %r" % (what, got, hits), replay)
        if lines and "iterations" not in name and name != "REPL lines":
            messages.setdefault("".join(sorted(lines[0])), "%s: %s" % (name, lines[0]))  # entries of a map come in any order
            ctx.check(len(messages) == 1, lambda: "the error of %s is worded differently: %r" % (what, sorted(messages.values())), replay)
        ctx.count("ways")
        ctx.count("requests", len(got))
        ctx.count("errors" if any(isinstance(w, model.Error) for w in want) else "values")
        ctx.seen((name, model.program(exprs)), what[:200])


def statement(rng, g):
    r = rng.random()
    call = ("call", rng.choice(["ask", "ask", "tell"]), [("int", 1)] if rng.random() < .2 else [])
    if r < .35: return ("let", "r%d" % rng.randint(0, 2), call)
    if r < .6: return ("field", call, rng.choice(["status", "body", "json", "reason"]))
    if r < .75: return ("if", ("bin", "==", ("field", call, "status"), ("int", rng.choice([200, 404]))), [("call", "println", [("str", "<in>")])], [("let", "a1", ("str", "b"))])
    if r < .85: return ("bin", rng.choice(["&&", "||"]), call, ("call", "print", [("str", "<rhs>")]))
    return ("let", "a1", gen.lit(rng.choice([1, "x", "y-z", True, 15])))


def program(rng, errors=.2):
    g = gen.Gen(rng, risky=.02)
    exprs = g.program(rng.randint(1, 5))
    for _ in range(rng.choice([0, 0, 1, 2, 3])): exprs.insert(rng.randint(0, len(exprs)), statement(rng, g))
    if rng.random() < errors: exprs.insert(rng.randint(0, len(exprs)), rng.choice(WRONG))
    return exprs


def directed(ctx, env, w, nw):
    import random
    for i in range(3 * nw):
        if i % nw != w: continue
        rng = random.Random("%d:%d" % (ctx.seed, i))
        exprs = program(rng, .4)
        if lang.size(exprs) < 400: judge(ctx, env, rng, exprs, True)
    n = lambda x: ("id", x)
    fixed = [[("let", "n", ("int", 1)), ("let", "n", ("bin", "+", n("n"), ("int", 1))), ("call", "println", [("str", "{n}"), n("n")])],
             [("call", "print", [("str", "no newline")])], [("call", "println", [("str", "")])], [("str", "")], [("str", "a\nb")], [("let", "e", ("int", 5)), ("call", "unknown", []), ("call", "println", [("str", "never")])],
             [("call", "ask", []), ("call", "ask", []), ("id", "missing")], [("let", "a1", ("str", "q")), ("call", "tell", []), ("let", "a1", ("str", "p")), ("call", "tell", [])], [("if", ("null",), [("call", "ask", [])], [("call", "tell", [])])]]
    for i, exprs in enumerate(fixed):
        if i % nw == w: judge(ctx, env, random.Random(i), exprs, True)


def case(ctx, rng, env):
    exprs = program(rng)
    if lang.size(exprs) > 400: return
    judge(ctx, env, rng, exprs)
