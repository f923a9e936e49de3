"""C03: operators give the mathematically expected value for every operand pair."""
import math, struct
from mon import build as B, dictionary, gen, model, probe, util

RULE = ("every binary operator and indexing and fields over all pairs of a pool of boundary values of every type (exhaustive for the pool), and over random pairs of the same and of "
        "different types, each compared with exact integer, IEEE double, byte-string and structural reference results. Non-trivial: a distinct (operator, operands).")
FLOOR = 5000
BUDGET = {"quick": 18, "thorough": 300}
INDEXES = [0, 1, 2, 3, 4, -1, -2, 255, 256, 1 << 16, (1 << 16) + 1, 1 << 31, -(1 << 31), 1 << 32, (1 << 32) + 1, (1 << 32) + 2, -(1 << 32), 1 << 33, 1 << 48, 1 << 62, 1 << 63, model.MAX, model.MIN, 0.0, 1.0, -0.0, 1.5, True, False, None, "", "0", "1", "a", "A", " a", "null", "true", "1.5", "[]", [], [1], {}, {"a": 1}]
HELD = [[], [7], [7, 8, 9], [[1, 2], "x", None], list(range(300)), {}, {"0": "zero", "1": "one", "-1": "minus", "a": 1, "A": 2, " a": 3, "": "empty", "null": "n", "true": "t", "1.5": "f", "[]": "arr", "4294967296": "big"}, None, True, 5, 2.5, "text", ""]
OPS = ["+", "-", "*", "/", "%", "^", "|", "&", "<<", ">>", "==", "!=", "<", ">", "<=", ">="]
POOL = [None, True, False, 0, 1, -1, 2, 3, -3, 7, -7, 31, 32, 63, 64, 127, 128, 255, 256, 1 << 31, -(1 << 31), (1 << 32) - 1, 1 << 32, 3037000499, 3037000500, -3037000500, (1 << 53), (1 << 53) + 1,
        1 << 62, -(1 << 62), model.MAX, model.MAX - 1, model.MIN, model.MIN + 1, 0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 2.0, -2.5, 0.1, 0.2, 3.0, 1e16, 9007199254740992.0, 9007199254740994.0,
        9.223372036854775807e18, 1e300, -1e300, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, float("nan"), float("inf"), float("-inf"),
        "", "a", "b", "ab", "aa", "A", "a ", "é", "e", "z", "日", "😀", "\uffff", "10", "9", "1", "true", "null", [], [1], [1.0], [1, 2], [2, 1], ["a"], [[1]], [[]], [None], [float("nan")],
        {}, {"a": 1}, {"a": 1.0}, {"a": 2}, {"b": 1}, {"a": 1, "b": 2}, {"b": 2, "a": 1}, {"a": None}, {"a": {"a": 1}}, {"a": [1]}]


def build(): B.probe()
def setup(ctx): return {"p": probe.Probe()}
def teardown(env): env["p"].stop()


def result(op, a, b):
    try: return model.binary(op, a, b)
    except model.Error as e: return e


def pair(ctx, env, a, b, ops=OPS, literal=False):
    text = lambda v: model.layout(model.tokens(gen.lit(v)))
    ta, tb = "(%s)" % text(a), "(%s)" % text(b)
    if literal: lines, ta_, tb_ = ["0"], ta, tb
    else: lines, ta_, tb_ = ["let a = %s; let b = %s" % (ta, tb)], "a", "b"
    lines += ["%s %s %s" % (ta_, op, tb_) for op in ops] + (["-%s" % ta_, "!%s" % ta_] if ops is OPS else [])
    steps, why = util.session(env["p"], lines)
    replay = {"a": repr(a), "b": repr(b), "lines": lines}
    if not ctx.check(steps is not None, lambda: "%r with %r: %s" % (a, b, why), replay): return
    from mon import lang
    for op, s in zip(list(ops) + ["neg", "not"], steps[1:]):
        if op in ("neg", "not"):
            try: v = model.unary("-" if op == "neg" else "!", a)
            except model.Error as e: v = e
        else: v = result(op, a, b)
        d = lang.differs(s, v, "")
        ctx.check(d is None, lambda: "%s %s %s %s" % (ta, op, tb, d), dict(replay, op=op, step=s))
        ctx.seen((op, repr(a), repr(b) if op not in ("neg", "not") else ""), "%s %s %s = %s" % (ta, op, tb, "error" if isinstance(v, model.Error) else v), True)
        ctx.count("errors" if isinstance(v, model.Error) else "values")


def reach(ctx, env, held, indexes):
    """Indexing and fields."""
    text = lambda v: model.layout(model.tokens(gen.lit(v)))
    exprs = [("index", ("id", "a"), gen.lit(i)) for i in indexes if not (isinstance(i, int) and not isinstance(i, bool) and not model.MIN < i <= model.MAX)]
    exprs += [("field", ("id", "a"), n) for n in ("a", "A", "b", "null", "length")]
    steps, why = util.session(env["p"], ["let a = %s" % text(held)] + [model.program([e]) for e in exprs])
    if not ctx.check(steps is not None, lambda: "indexing %r: %s" % (held, why), {"held": repr(held)}): return
    from mon import lang
    for e, s in zip(exprs, steps[1:]):
        try: v, _, _ = model.run([("let", "a", gen.lit(held)), e])
        except model.Unmodelled: continue
        d = lang.differs(s, v, "")
        ctx.check(d is None, lambda: "%s with a = %s %s" % (model.program([e]), text(held)[:300], d), {"held": repr(held), "step": s})
        ctx.seen(("reach", repr(held), repr(e)), "%s of %s" % (model.program([e]), text(held)[:60]), True)
        ctx.count("reached")


def directed(ctx, env, w, nw):
    for i, held in enumerate(HELD):
        if i % nw == w: reach(ctx, env, held, INDEXES)
    for i, n in enumerate((255, 256, 257, 1000, 1024, 4096, 65536, 70000)):  # large ones: both ends, around powers of two, and beyond
        if i % nw != w: continue
        spots = sorted({j for b in (0, 128, 256, 1024, 32768, 65536, n) for j in (b - 1, b, b + 1)} | {-n, 1 - n})
        reach(ctx, env, list(range(7, n + 7)), spots)
        if n <= 4096: reach(ctx, env, dict({"k%d" % j: j for j in range(n)}, a=1, b=[2]), ["a", "b", "k0", "k%d" % (n - 1), "k%d" % n, "k%d" % (n // 2), "", 0])
    pool = list(POOL)
    for i, a in enumerate(pool):
        if i % nw != w: continue
        for b in pool: pair(ctx, env, a, b)


def case(ctx, rng, env):
    for _ in range(20):
        r = rng.random()
        if r < .4: a, b = gen.integer(rng), gen.integer(rng)
        elif r < .55:
            a = gen.integer(rng)
            b = rng.choice([a + 1, a - 1, -a, model.MAX - a, model.MIN - a, a])
            b = min(max(b, model.MIN), model.MAX)
        elif r < .75:
            fl = lambda: struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0] if rng.random() < .3 else gen.floating(rng)
            a, b = rng.choice([(fl(), fl()), (fl(), gen.integer(rng)), (gen.integer(rng), fl())])
            if rng.random() < .1: b = a if isinstance(a, float) else float(a)
        elif r < .9:
            a, b = gen.string(rng), gen.string(rng)
            if rng.random() < .4: b = a[:rng.randint(0, len(a))] + rng.choice(["", "a", "\0", "é", "z", " "])
        else:
            a, b = gen.value(rng), gen.value(rng)
            if rng.random() < .3: b = a
        pair(ctx, env, a, b, literal=rng.random() < .2)
    held = gen.value(rng)
    n = len(held) if isinstance(held, (list, dict)) else 1
    reach(ctx, env, held, [rng.randint(0, n), n, -rng.randint(1, n + 1), (1 << rng.randint(8, 62)) + rng.randint(0, n), gen.integer(rng), gen.value(rng)] + (rng.sample(sorted(held), min(2, n)) if isinstance(held, dict) and held else []))
