"""C05: evaluation order, short circuits, branches, bindings, effects before and after an error."""
from mon import build as B, dictionary, gen, lang, model, probe, util

RULE = ("effectful programs (operands, elements, arguments, entries, branches and bindings print unique markers) fed as one or several lines to the real evaluator; the printed marker "
        "sequence, the value or error, and afterwards every binding are compared with a reference interpreter. Non-trivial: a distinct program that printed at least one marker or bound a name.")
FLOOR = 2000
BUDGET = {"quick": 18, "thorough": 300}


def build(): B.probe()
def setup(ctx): return {"p": probe.Probe()}
def teardown(env): env["p"].stop()


def judge(ctx, env, lines, rng=None, style="plain"):
    """lines: lists of trees, one per line of a session."""
    m = model.Machine()
    texts, want = [], []
    try:
        for exprs in lines:
            texts.append(model.program(exprs, rng, style))
            m.out = []
            try: v = m.block(exprs)
            except model.Error as e: v = e
            want.append((v, "".join(m.out)))
    except (model.Unmodelled, RecursionError):
        ctx.count("unmodelled")
        return
    names = sorted({n for n in m.names} | {"unbound_name"})
    texts += names
    want += [(m.names[n] if n in m.names else model.Error("unbound"), "") for n in names]
    steps, why = util.session(env["p"], texts)
    if not ctx.check(steps is not None, lambda: "%r: %s" % (texts, why), {"lines": texts}): return
    for i, (s, (v, out)) in enumerate(zip(steps, want)):
        try: d = lang.differs(s, v, out)
        except model.Unmodelled: continue
        ctx.check(d is None, lambda: "line %d of %r %s" % (i + 1, texts, d), {"lines": texts, "step": i, "got": s})
        ctx.count("errors" if isinstance(v, model.Error) else "values")
        ctx.count("markers", out.count("<"))
    ctx.count("bindings", len(names) - 1)
    ctx.seen(tuple(texts), texts[0][:200], any(o for _, o in want) or len(names) > 1)


def passed(ctx, env, exprs, rng=None, style="plain"):
    """The arguments of a request are evaluated like any others, before it is made; an error in one keeps it from being made."""
    m = model.Machine()
    try:
        try: v = m.block([("arr", exprs)])
        except model.Error as e: v = e
        texts = ["request requested `GET http://127.0.0.1:1/`", model.program([("call", "requested", exprs)], rng, style)] + sorted(m.names)
    except (model.Unmodelled, RecursionError):
        ctx.count("unmodelled")
        return
    steps, why = util.session(env["p"], texts)
    if not ctx.check(steps is not None, lambda: "%r: %s" % (texts, why), {"lines": texts}): return
    s = steps[1]
    made, out = len(s.get("records", [])), "".join(m.out)
    ctx.check(s.get("out", "") == out, lambda: "%r printed %r, expected %r" % (texts, s.get("out"), out), {"lines": texts, "got": s})
    if isinstance(v, model.Error): ctx.check("err" in s and made == 0, lambda: "%r, of which an argument fails: %d requests made, %r" % (texts, made, s), {"lines": texts, "got": s})
    else: ctx.check("ok" in s and made == 1, lambda: "%r: %d requests made, %r" % (texts, made, s), {"lines": texts, "got": s})
    for n, x in zip(sorted(m.names), steps[2:]):
        try: d = lang.differs(x, m.names[n], "")
        except model.Unmodelled: continue
        ctx.check(d is None, lambda: "afterwards of %r %s %s" % (texts, n, d), {"lines": texts, "got": x})
    ctx.count("arguments_of_requests", len(exprs))
    ctx.seen(tuple(texts), texts[1][:200], bool(out) or bool(m.names))


def E(n): return ("index", ("arr", [("call", "print", [("str", "<%d>" % n)]), ("int", n)]), ("int", 1))
def V(n, v): return ("index", ("arr", [("call", "print", [("str", "<%d>" % n)]), gen.lit(v)]), ("int", 1))


def directed(ctx, env, w, nw):
    bad = ("bin", "+", ("int", 1), ("str", "x"))
    vals = [None, False, True, 0, 1, 0.0, "", "a", [], {}, [None], -1]
    cases = []
    for op in model.PREC:
        cases.append([[("bin", op, E(1), E(2))]])
        cases.append([[("bin", op, E(1), bad), E(3)], [E(4)]])
        cases.append([[("bin", op, bad, E(1)), E(3)], [E(4)]])
        for a in vals:
            for b in (None, False, 7): cases.append([[("bin", op, V(1, a), V(2, b))]])
    for v in vals:
        cases += [[[("if", V(1, v), [E(2), E(3)], [E(4), E(5)])]], [[("if", V(1, v), [E(2)], [])]], [[("if", V(1, v), [], [E(2)])]], [[("if", V(1, v), [], [])]], [[("un", "!", V(1, v))]],
                  [[("let", "a", V(1, v))], [("id", "a")]], [[("bin", "&&", ("bin", "||", V(1, v), V(2, None)), V(3, v))]]]
    cases += [[[("arr", [E(i) for i in range(6)])]], [[("map", [(V(i, "k%d" % i), E(100 + i)) for i in range(5)])]], [[("map", [(V(1, "k"), E(2)), (V(3, "k"), E(4))])]],
              [[("call", "append", [("arr", [E(1)]), E(2), E(3)])]], [[("call", "format", [V(1, "{a}{b}"), E(2), E(3)])]], [[("call", "println", [V(1, "{a} {b}"), E(2), E(3)])]],
              [[("index", ("arr", [E(1), E(2)]), V(3, 1))]], [[("index", ("map", [(V(1, "a"), E(2))]), V(3, "a"))]], [[("call", "unknown", [E(1), E(2)]), E(3)]],
              [[("let", "a", ("bin", "+", ("paren", ("let", "b", E(1))), ("id", "b"))), ("bin", "*", ("id", "a"), ("id", "b"))]],
              [[("let", "a", ("int", 1)), ("let", "b", ("id", "a")), ("let", "a", ("int", 2)), ("arr", [("id", "a"), ("id", "b")])]],
              [[("let", "a", ("arr", [("int", 1)])), ("let", "b", ("call", "append", [("id", "a"), ("int", 2)])), ("arr", [("id", "a"), ("id", "b")])]],
              [[("if", ("bool", True), [("let", "inner", ("int", 5))], [("let", "other", ("int", 6))]), ("id", "inner")], [("id", "other")]],
              [[E(1), ("let", "a", E(2)), bad, ("let", "b", E(3))], [("id", "a")], [("id", "b")]], [[("let", "a", ("int", 1)), ("let", "a", bad)], [("id", "a")]],
              [[("arr", [("paren", ("let", "a", E(1))), bad, ("paren", ("let", "b", E(2)))])]], [[("call", "append", [("arr", []), ("let", "p", E(1)), bad, ("let", "q", E(2))])]],
              [[("if", ("let", "c", V(1, False)), [E(2)], [("id", "c")])]], [[("bin", "&&", V(1, False), ("paren", ("let", "never", E(2))))], [("id", "never")]],
              [[("bin", "||", V(1, 5), ("paren", ("let", "never", E(2))))]], [[("let", "length", ("int", 3)), ("call", "length", [("str", "abcd")])]]]
    # any name can be bound, read, shadowed and used next to one that almost is the same
    words = sorted({x for x in dictionary.words() if x not in gen.KEYWORDS} | {"n" * k for k in (2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 300, 1000)} | {"_", "__", "_1", "let_", "ifx", "x0", "nullx", "true_", "False", "TRUE", "If", "Let", "null_", "testing", "elsewhere"})
    for x in words:
        n = lambda y: ("id", y)
        cases += [[[("let", x, V(1, "first"))], [n(x)], [("let", x + "_", ("int", 2)), ("arr", [n(x), n(x + "_"), n(x + "0") if x + "0" in words else ("int", 0)])], [("let", x, ("arr", [n(x), n(x)])), bad], [("map", [(("str", x), n(x))])]],
                  [[n(x + "_unbound"), E(1)], [("let", "m", ("map", [(("str", x), ("int", 4))])), ("field", n("m"), x) if x not in gen.NATIVES else ("int", 1), ("index", n("m"), ("str", x))]]]
    for i, c in enumerate(cases):
        if i % nw == w: judge(ctx, env, c)
        if i % nw == w: passed(ctx, env, [e for line in c for e in line])


def case(ctx, rng, env):
    g = gen.Gen(rng, risky=rng.choice([.03, .08, .2]))
    lines = [g.program(rng.randint(1, 4)) for _ in range(rng.randint(1, 4))]
    if sum(lang.size(l) for l in lines) > 600: return
    judge(ctx, env, lines, rng, rng.choice(["plain", "tight", "loose"]))
    if rng.random() < .2: passed(ctx, env, lines[0], rng, rng.choice(["plain", "tight", "loose"]))
