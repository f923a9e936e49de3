"""C04: expressions group by precedence, left-associatively, whatever the layout."""
import itertools
from mon import build as B, gen, lang, model, probe, util

RULE = ("syntax trees rendered with only the needed parentheses, with all parentheses, with redundant ones, and with tight or random whitespace and line breaks; every "
        "rendering is evaluated by the real library and compared with the reference value of the tree. All pairs and triples of binary, unary and postfix operators are "
        "enumerated with operands that tell groupings apart. Non-trivial: a distinct rendered program with at least two operators.")
FLOOR = 5000
BUDGET = {"quick": 18, "thorough": 300}
OPS = ["||", "&&", "|", "^", "&", "==", "!=", "<", ">", "<=", ">=", "<<", ">>", "+", "-", "*", "/", "%"]
I = lambda n: gen.lit(n)
TRIPLES = [(7, 3, 2), (1, 2, 3), (12, 5, 5), (0, 1, 6), (2, 2, 1), (-8, 3, 1), (True, False, True), (False, True, True), (5, True, 1), (6, 2, True)]


def build(): B.probe()
def setup(ctx): return {"p": probe.Probe()}
def teardown(env): env["p"].stop()


def parse_tree(operands, ops):
    """The tree of a flat chain by precedence climbing (left associative)."""
    out, stack = [operands[0]], []

    def reduce():
        op = stack.pop()
        b, a = out.pop(), out.pop()
        out.append(("bin", op, a, b))
    for op, x in zip(ops, operands[1:]):
        while stack and model.PREC[stack[-1]] >= model.PREC[op]: reduce()
        stack.append(op)
        out.append(x)
    while stack: reduce()
    return out[0]


def many(ctx, env, items):
    """items: (text, tree). One session; each line is an independent program."""
    steps, why = util.session(env["p"], [t for t, _ in items])
    if not ctx.check(steps is not None, lambda: "%r: %s" % ([t for t, _ in items][:50], why), {"lines": [t for t, _ in items]}): return
    for (t, tree), s in zip(items, steps):
        try: v, out, _ = lang.expected([tree])
        except model.Unmodelled: continue
        d = lang.differs(s, v, out)
        ctx.check(d is None, lambda: "%r, meant as %r, %s" % (t, model.layout(model.tokens(tree, full=True)), d), {"text": t, "step": s})
        ctx.seen(t, t[:120])
        ctx.count("errors" if isinstance(v, model.Error) else "values")


def directed(ctx, env, w, nw):
    for i, (o1, o2) in enumerate(itertools.product(OPS, OPS)):
        if i % nw != w: continue
        items = []
        for tr in TRIPLES:
            xs = [I(v) for v in tr]
            flat = model.layout([tok for x, op in zip(xs, (o1, o2, None)) for tok in (model.tokens(x) if x[0] in ("int", "bool") else model.tokens(x)) + ([op] if op else [])])
            items.append((flat, parse_tree(xs, [o1, o2])))
            for u in "-!":
                ys = [("un", u, ("int", abs(tr[0]))) if not isinstance(tr[0], bool) else ("un", u, xs[0])] + xs[1:]
                t = model.layout([u] + model.tokens(ys[0][2]) + [o1] + model.tokens(xs[1]) + [o2] + model.tokens(xs[2]), style="tight")
                items.append((t, parse_tree(ys, [o1, o2])))
                ys = [xs[0], xs[1], ("un", u, xs[2] if xs[2][0] != "un" else xs[2][2])]
                t = model.layout(model.tokens(xs[0]) + [o1] + model.tokens(xs[1]) + [o2] + model.tokens(ys[2]))
                items.append((t, parse_tree(ys, [o1, o2])))
        many(ctx, env, items)
    if w == 0:
        pre = [("let", "a", ("arr", [I(5), ("arr", [I(6), I(0)]), ("map", [(("str", "k"), I(9))])])), ("let", "m", ("map", [(("str", "k"), I(7)), (("str", "n"), ("map", [(("str", "k"), ("arr", [I(8), I(1)]))]))]))]
        A, M = ("id", "a"), ("id", "m")
        posts = [("index", A, I(0)), ("index", ("index", A, I(1)), I(0)), ("field", ("index", A, I(2)), "k"), ("field", M, "k"), ("index", ("field", ("field", M, "n"), "k"), I(0)), ("call", "length", [A]),
                 ("index", ("call", "append", [A, I(1)]), I(3)), ("index", ("field", ("field", M, "n"), "k"), ("bin", "-", I(2), I(1))), ("field", M, "zz")]
        for u, p, op, q, v in itertools.product(["", "-", "!", "--", "-!", "!-", "!!"], posts, OPS, posts, ["", "-", "!"]):
            def wrap(us, e):
                for c in reversed(us): e = ("un", c, e)
                return e
            tree = ("bin", op, wrap(u, p), wrap(v, q))
            lang.run_text(ctx, env["p"], model.program(pre + [tree], style="tight"), pre + [tree])
            ctx.seen((u, op, repr(p), repr(q), v))


def rng_tree(rng, n, depth=3):
    """A random operator tree over small operands."""
    if n <= 1 or depth == 0:
        r = rng.random()
        if r < .5: return I(rng.choice([0, 1, 2, 3, 5, 8, 13, 63, -1, -4]))
        if r < .6: return ("bool", rng.random() < .5)
        if r < .7: return rng.choice([("id", "x"), ("id", "y"), ("index", ("id", "v"), I(rng.randint(0, 2))), ("field", ("id", "m"), "k"), ("call", "length", [("id", "v")])])
        if r < .78: return gen.lit(rng.choice([0.5, 1.5, 2.0, 4.0]))
        if r < .84: return ("str", rng.choice(["a", "b", "ab", ""]))
        if r < .9: return ("index", ("arr", [I(1), I(2), I(4)]), rng_tree(rng, 2, depth - 1) if depth else I(1))
        return ("null",)
    if rng.random() < .18: return ("un", rng.choice("-!"), rng_tree(rng, n - 1, depth))
    k = rng.randint(1, n - 1)
    return ("bin", rng.choice(OPS), rng_tree(rng, k, depth), rng_tree(rng, n - k, depth))


def case(ctx, rng, env):
    if rng.random() < .6:
        exprs = [("let", "x", I(6)), ("let", "y", I(-3)), ("let", "v", ("arr", [I(4), I(2), I(9)])), ("let", "m", ("map", [(("str", "k"), I(3))]))]
        exprs.append(rng_tree(rng, rng.randint(2, 8), 12))
    else:
        exprs = gen.Gen(rng).program(rng.randint(1, 3))
    if sum(map(lang.size, exprs)) > 400: return
    texts = {"plain": model.program(exprs), "tight": model.program(exprs, style="tight"), "loose": model.program(exprs, rng, "loose"), "full": model.program(exprs, full=True),
             "extra": model.program(exprs, rng, "loose", extra=lambda: rng.random() < .2), "full tight": model.program(exprs, full=True, style="tight")}
    for style, t in texts.items():
        r = lang.run_text(ctx, env["p"], t, exprs, what=style + " ")
        if r is None: return
        ctx.seen(t, t[:160], r[2].steps > 2)
