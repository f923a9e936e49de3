"""C06: format, print, println, length and append."""
from mon import build as B, cli, dictionary, gen, lang, model, probe, util

RULE = ("calls of the native functions with random templates (placeholders, look-alikes, nested and unbalanced braces, long text) and arguments of every type, wrong counts and types included, "
        "compared with a reference; a share runs through the real binary, comparing the bytes on its stdout. Non-trivial: a distinct call.")
FLOOR = 2000
BUDGET = {"quick": 18, "thorough": 300}


def build():
    B.probe()
    B.cli()


def setup(ctx): return {"p": probe.Probe()}
def teardown(env): env["p"].stop()

PIECES = ["{a}", "{b}", "{ a }", "{  name\t}", "{\nx\n}", "{_}", "{A1_}", "{a-b}", "{1a}", "{}", "{ }", "{", "}", "{{", "}}", "{{a}}", "{a", "a}", "{a b}", "{é}", "{a.b}", "{a}{b}", "text", " ", "é", "日本", "😀",
          "$", "\\", "%s", "{0}", "{:?}", "{a:}", "\n", "\t", "{x}}", "{{x}", "0", "'", "`", "{\u00a0a}", "{a,b}", "{true}", "{let}", "{nullé}"]


def names(rng):
    """A few placeholder names of any length, to be used more than once."""
    pool = [w for w in dictionary.words() if w not in gen.KEYWORDS]
    return [rng.choice(pool) if rng.random() < .3 else rng.choice("abcXYZ_") + "".join(rng.choice("abcXYZ_019") for _ in range(rng.choice([0, 0, 1, 5, 9, 10, 15, 20, 31, 32, 63, 64, 100, 300]))) for _ in range(rng.randint(1, 4))]


def template(rng):
    r = rng.random()
    if r < .12:
        have = names(rng)
        return "".join(rng.choice([rng.choice(PIECES), "{%s}" % rng.choice(have), "{ %s }" % rng.choice(have), "{%s}" % rng.choice(have)]) for _ in range(rng.randint(1, 8)))
    r = rng.random()
    if r < .05: return "".join(rng.choice(PIECES) for _ in range(rng.randint(50, 400)))
    if r < .08: return ("{x}" if rng.random() < .5 else "ab{x}é") * rng.choice([1, 2, 9, 10, 11, 31, 32, 33, 100, 127, 128, 129, 255, 256, 257, 300, 600])
    return "".join(rng.choice(PIECES) for _ in range(rng.randint(0, 8)))


def argument(rng, depth=1):
    r = rng.random()
    if r < .25: return rng.choice(["", "{a}", "{b}", "}", "{", "a", "é{x}", "$1", "${a}", "\\", "{a}{b}"])
    return gen.value(rng, depth)


def call(rng):
    r = rng.random()
    if r < .6:
        t = template(rng)
        n = len(model.PLACEHOLDER.findall(t))
        if rng.random() < .12: n = max(0, n + rng.choice([-1, 1, 2]))
        return ("call", rng.choice(["format", "format", "print", "println"]), [("str", t)] + [gen.lit(argument(rng)) for _ in range(n)])
    if r < .7: return ("call", rng.choice(["format", "print", "println"]), [gen.lit(argument(rng)) for _ in range(rng.randint(0, 3))])
    if r < .85:
        v = rng.choice([template(rng), gen.value(rng), [gen.value(rng, 0) for _ in range(rng.randint(0, 40))], {str(i): i for i in range(rng.randint(0, 30))}, gen.string(rng)])
        return ("call", "length", [gen.lit(v)] + [gen.lit(1)] * (rng.random() < .08))
    a = gen.lit([gen.value(rng, 1) for _ in range(rng.choice([0, 1, 2, 5, 20]))]) if rng.random() < .9 else gen.lit(gen.value(rng))
    return ("call", "append", [a] + [gen.lit(gen.value(rng, 1)) for _ in range(rng.randint(0, 5))])


def directed(ctx, env, w, nw):
    n = 0
    for a in PIECES:
        for b in PIECES:
            n += 1
            if n % nw != w: continue
            t = a + b
            k = len(model.PLACEHOLDER.findall(t))
            for c in range(max(0, k - 1), k + 2):
                e = ("call", "format", [("str", t)] + [("str", "{a}%d{b}" % i) for i in range(c)])
                lang.run_text(ctx, env["p"], model.program([e]), [e])
                ctx.seen(e)
    if w == 0:
        for s in dictionary.strings():
            if '"' in s: continue
            for e in (("call", "length", [("str", s)]), ("call", "print", [("str", s)]), ("call", "format", [("str", "<{a}>"), ("str", s)])):
                lang.run_text(ctx, env["p"], model.program([e]), [e])
                ctx.seen(e)
    if w == 1 % nw:
        for k in dictionary.sizes(4200):
            for ch in ("a", "é", "😀"):
                s = ch * k
                pre = [("let", "s", ("str", s))]
                for e in (("call", "length", [("id", "s")]), ("bin", "==", ("call", "format", [("str", "{a}"), ("id", "s")]), ("id", "s"))):
                    lang.run_text(ctx, env["p"], model.program(pre + [e]), pre + [e])
                    ctx.seen((k, ch, e))
    if w == 3 % nw:
        for n in range(1, 140):
            for t, k in (("{%s} {%s}" % ("n" * n, "n" * n), 2), ("{%s}{a}{%s}{ %s }{b}" % ("n" * n, "n" * n, "n" * n), 5), ("{%s}{%s}" % ("n" * n, "n" * n + "x"), 2)):
                for c in (k - 1, k, k + 1):
                    e = ("call", "format", [("str", t)] + [("int", i + 1) for i in range(c)])
                    lang.run_text(ctx, env["p"], model.program([e]), [e])
                    ctx.seen(e)
        for n in [x for x in dictionary.sizes(1100) if x]:
            e = ("call", "format", [("str", "{a}," * n)] + [("int", i) for i in range(n)])
            lang.run_text(ctx, env["p"], model.program([e]), [e])
            ctx.seen(e)
    # the original array is not changed, in any way it can be reached
    if w == 2 % nw:
        for k in (0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 100):
            a = gen.lit(list(range(k)))
            prog = [("let", "a", a), ("let", "b", ("id", "a")), ("let", "m", ("map", [(("str", "a"), ("id", "a"))])), ("let", "c", ("call", "append", [("id", "a"), ("int", 7), ("id", "a")])),
                    ("let", "d", ("call", "append", [("field", ("id", "m"), "a"), ("int", 8)])), ("arr", [("id", "a"), ("id", "b"), ("id", "m"), ("id", "c"), ("id", "d")])]
            lang.run_text(ctx, env["p"], model.program(prog), prog)
            ctx.seen(("append", k))
    # arrays of many items
    if w == 4 % nw:
        for k in (127, 128, 255, 256, 257, 1000, 1024, 4095, 4096, 4097, 10000, 65536, 70000):
            a = ("arr", [("int", i % 10) for i in range(k)])
            for more in (1, 2, 300):
                prog = [("let", "a", a), ("let", "b", ("call", "append", [("id", "a")] + [("int", i) for i in range(more)])), ("arr", [("call", "length", [("id", "a")]), ("call", "length", [("id", "b")]), ("index", ("id", "b"), ("int", k + more - 1)), ("index", ("id", "b"), ("int", k - 1)), ("index", ("id", "b"), ("int", k + more))])]
                lang.run_text(ctx, env["p"], model.program(prog), prog)
                ctx.seen(("append many", k, more))


def case(ctx, rng, env):
    if rng.random() < .02: return binary(ctx, rng)
    exprs = [call(rng) for _ in range(rng.randint(1, 3))]
    r = lang.run_text(ctx, env["p"], model.program(exprs), exprs)
    if r is not None: ctx.seen(repr(exprs), model.program(exprs)[:160])


def binary(ctx, rng):
    """The bytes the real process writes."""
    exprs = [call(rng) for _ in range(rng.randint(1, 5))]
    if rng.random() < .3: exprs.insert(0, ("call", "print", [("str", rng.choice(["x", "é\n", "日"]) * rng.choice([1, 1023, 1024, 1025, 5000, 20000]))]))
    try: v, out, _ = lang.expected(exprs)
    except model.Unmodelled: return
    text = model.program(exprs)
    if "\0" in text or len(text.encode()) > 120000: return
    r = cli.run(["eval", text])
    if not cli.over(ctx, r): return
    if isinstance(v, model.Error): ok = r.text.startswith(out) and len(r.text) > len(out) and r.text.endswith("\n")
    else:
        try: ok = r.out == (out + model.text(v) + "\n").encode()
        except model.Unmodelled: ok = r.text.startswith(out)
    ctx.check(ok and r.code == 0, lambda: "eval %r printed %r (exit %r), expected %r" % (text[:1000], r.text[:1000], r.code, out[:1000]), {"text": text})
    ctx.count("processes")
    ctx.seen(text, text[:160])
