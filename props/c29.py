"""C29: the text shown for an assertion reads back as the same expression."""
from mon import build as B, gen, httpd, lang, model, probe, util

RULE = ("random expressions are parsed by the real library, shown, and the shown text is evaluated again: both must give what the reference gives for the tree; a share is declared as assertions of "
        "real requests, whose reported text, evaluated over the response's fields, must give the reported result. Non-trivial: a distinct expression with an operator.")
FLOOR = 2000
BUDGET = {"quick": 18, "thorough": 300}
PRE = [("let", "x", gen.lit(6)), ("let", "y", gen.lit(-3)), ("let", "v", gen.lit([4, 2, 9])), ("let", "m", gen.lit({"k": 3, "n": {"k": [1, 5]}})), ("let", "s", gen.lit("té")), ("let", "f", gen.lit(2.5))]
NAMES = {"x": "int", "y": "int", "v": "arr", "m": "map", "s": "str", "f": "float"}
RESPONSE = b"HTTP/1.1 201 All Right\r\nX-A: 1\r\nX-A: 2\r\n\r\n{\"id\": 7, \"f\": 2.0, \"list\": [1, 2, {\"k\": \"v\"}], \"s\": \"t\"}"
FIELDS = {"version": "HTTP/1.1", "status": 201, "reason": "All Right", "headers": {"X-A": ["1", "2"]}, "body": RESPONSE.split(b"\r\n\r\n")[1].decode(),
          "json": {"id": 7, "f": 2.0, "list": [1, 2, {"k": "v"}], "s": "t"}}
KINDS = {"version": "str", "status": "int", "reason": "str", "headers": "map", "body": "str", "json": "map"}


def build(): B.probe()


def setup(ctx): return {"p": probe.Probe(), "s": httpd.Server(httpd.respond(RESPONSE))}


def teardown(env):
    env["p"].stop()
    env["s"].close()


def shown(env, text):
    reply = env["p"].call({"op": "parse", "text": text})
    return reply.get("ok"), reply


def judge(ctx, env, e, text):
    texts, reply = shown(env, text)
    why = probe.bad(reply)
    if not ctx.check(why is None, lambda: "parsing %r: %s" % (text, why), {"text": text}): return
    if not ctx.check(texts is not None and len(texts) == 1, lambda: "%r is not one expression: %r" % (text, reply), {"text": text}): return
    try: v, out, m = lang.expected(PRE + [e])
    except model.Unmodelled: return
    for what, t in (("%r" % text, text), ("the text %r shown for %r" % (texts[0], text), texts[0])):
        steps, why = util.session(env["p"], [model.program(PRE), t])
        if not ctx.check(steps is not None, lambda: "%r: %s" % (t, why), {"text": text}): return
        s = steps[1]
        d = lang.differs(s, v, out)
        ctx.check(d is None, lambda: "%s %s" % (what, d), {"text": text, "shown": texts[0]})
    # and showing it again changes nothing
    twice, reply = shown(env, texts[0])
    ctx.check(twice == texts, lambda: "%r is shown as %r and that as %r" % (text, texts[0], twice), {"text": text})
    ctx.seen(text, text[:160], m.steps > 12)


def assertion(ctx, rng, env):
    g = gen.Gen(rng, effects=False, lets=False, risky=.05)
    g.names = dict(KINDS)
    trees = [("bin", rng.choice(["==", "!=", "<", ">", "<=", ">="]), g.expr(k, rng.randint(0, 3)), g.expr(k, rng.randint(0, 3))) for k in [rng.choice(["int", "str", "float", "arr", "map", "bool"]) for _ in range(rng.randint(1, 4))]]
    text = ", ".join(model.layout(model.tokens(t)) for t in trees)
    if "`" in text: return
    line = "request r `GET http://127.0.0.1:%d/x` [%s] r()" % (env["s"].port, text)
    steps, why = util.session(env["p"], [line], idle=60)
    env["s"].take()
    if not ctx.check(steps is not None, lambda: "%r: %s" % (line, why), {"line": line}): return
    if not steps[0]["records"] or "asserts" not in steps[0]["records"][0]: return
    asserts = steps[0]["records"][0]["asserts"]
    if len(asserts) != len(trees): return  # C18
    pre = "; ".join("let %s = %s" % (n, model.layout(model.tokens(gen.lit(v) if n != "body" else gen.lit("B")))) for n, v in FIELDS.items() if n != "body")
    if "body" in text: return
    again, why = util.session(env["p"], [pre] + [a["expr"] for a in asserts])
    if not ctx.check(again is not None, lambda: "%r: %s" % (asserts, why), {"line": line}): return
    for t, a, s in zip(trees, asserts, again[1:]):
        m = model.Machine(FIELDS)
        try: v = m.eval(t)
        except model.Error: continue
        except model.Unmodelled: continue
        ctx.check(a["result"] == v, lambda: "assertion %r is %r, expected %r" % (model.layout(model.tokens(t)), a["result"], v), {"line": line, "assert": a})
        ctx.check("ok" in s and model.read_debug(s["ok"]) == v, lambda: "the reported text %r of %r gives %r, expected %r" % (a["expr"], model.layout(model.tokens(t)), s, v), {"line": line, "assert": a})
        ctx.count("assertions")
        ctx.seen(a["expr"], a["expr"][:160])


def directed(ctx, env, w, nw):
    vals = [gen.lit(v) for v in gen.INTS + gen.FLOATS + ["", "a", "é", "{x}", "it's", "\\"] + [True, False, None, [], [1], {}, {"a": 1}, [1.0], {"a": 2.0}]]
    n = 0
    for v in vals:
        for e in (v, ("bin", "==", v, v), ("arr", [v, v]), ("map", [(v, v)]), ("index", ("arr", [v]), ("int", 0)), ("un", "!", v), ("call", "length", [v]), ("if", v, [v], [v]), ("if", v, [v, v], []),
                  ("field", ("map", [(("str", "k"), v)]), "k"), ("let", "q", v), ("bin", "&&", ("paren", ("let", "q", v)), v), ("bin", "+", ("bin", "*", v, v), v), ("bin", "*", v, ("bin", "+", v, v)),
                  ("un", "-", ("un", "-", v)), ("un", "-", ("bin", "+", v, v)), ("bin", "-", v, ("un", "-", v)), ("bin", "-", v, ("bin", "-", v, v)), ("call", "format", [("str", "{a}"), v])):
            n += 1
            if n % nw == w: judge(ctx, env, e, model.layout(model.tokens(e)))


def case(ctx, rng, env):
    if rng.random() < .15: return assertion(ctx, rng, env)
    g = gen.Gen(rng, effects=rng.random() < .3)
    g.names = dict(NAMES)
    e = g.expr(None, rng.randint(1, 4))
    if lang.size(e) > 200: return
    judge(ctx, env, e, model.layout(model.tokens(e, extra=(lambda: rng.random() < .15) if rng.random() < .3 else None), rng, rng.choice(["plain", "loose"])))
