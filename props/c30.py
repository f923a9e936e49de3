"""C30: a literal denotes exactly what is written, and a shown number is the number."""
from mon import build as B, dictionary, gen, lang, model, probe, util

RULE = ("literals of every form (decimal digits of any length with leading zeros, decimal fractions of any length, strings of any characters but the quote over several lines, booleans) stand alone, in arrays, maps, operands, bindings, calls, branches and "
        "declared assertions, next to other tokens with and without blanks; the value observed must be the one written, bit for bit, and its shown text must be it again; what denotes no value of the language (too large integers, several dots) must be refused. Non-trivial: a distinct literal in a distinct place.")
FLOOR = 3000
BUDGET = {"quick": 18, "thorough": 300}
# every place gives the literal back
PLACES = [("%s", lambda v: v), ("%s;", lambda v: v), ("(%s)", lambda v: v), ("((%s))", lambda v: v), ("[%s][0]", lambda v: v), ("[1,%s,3][1]", lambda v: v), ("[%s]", lambda v: [v]), ("[%s,%s]", lambda v: [v, v]), ('{"k":%s}["k"]', lambda v: v),
          ('{"k":%s}.k', lambda v: v), ("let a=%s", lambda v: v), ("let a=%s;a", lambda v: v), ("let a=%s a", lambda v: v), ("if(true){%s}", lambda v: v), ("if(true){1;%s}else{2}", lambda v: v), ("if(false){1}else{%s}", lambda v: v),
          ("false||%s", lambda v: v if not model.falsy(v) else v), ("1&&%s", lambda v: v), ("append([],%s)", lambda v: [v]), ("append([%s],%s)", lambda v: [v, v]), ("%s==%s", lambda v: True), ("%s!=%s", lambda v: False), ("[%s==%s,%s]", lambda v: [True, v]),
          ("1;%s", lambda v: v), ("x;%s", lambda v: v), ('"s"\n%s', lambda v: v), ("\n\t%s\n", lambda v: v), ("[[[%s]]][0][0][0]", lambda v: v)]


def build(): B.probe()
def setup(ctx): return {"p": probe.Probe()}
def teardown(env): env["p"].stop()


def judge(ctx, env, items):
    """items: (literal text, value or None when it must be refused, place)"""
    lines = ["let x = 7"]
    for text, v, (place, f) in items: lines.append(place.replace("%s", text))
    steps, why = util.session(env["p"], lines)
    if not ctx.check(steps is not None, lambda: "%r: %s" % (lines, why), {"lines": lines}): return
    for line, (text, v, (place, f)), s in zip(lines[1:], items, steps[1:]):
        replay = {"line": line, "step": s}
        if v is None:
            ctx.check("perr" in s, lambda: "%r, which denotes no value, gives %r" % (line[:400], {k: s[k] for k in s if k in ("ok", "err")}), replay)
            ctx.count("refused")
        else:
            d = lang.differs(s, f(v), "")
            ctx.check(d is None, lambda: "%r %s" % (line[:400], d), replay)
            ctx.count(model.kind(v))
        ctx.seen((text, place), line[:120], v is not None)


def read(env, ctx, values):
    """What is shown for a number denotes that number again."""
    steps, why = util.session(env["p"], [t for t, _ in values])
    if not ctx.check(steps is not None, lambda: "%r: %s" % (values, why), {"lines": values}): return
    again = [s.get("show", "") for s in steps]
    back, why = util.session(env["p"], again)
    if not ctx.check(back is not None, lambda: "%r: %s" % (again, why), {"lines": again}): return
    for (t, v), shown, s in zip(values, again, back):
        try: got = model.read_debug(s.get("ok", ""))
        except ValueError: got = None
        # a whole float is shown without its fraction: the number is the same
        ctx.check(model.kind(got) in ("int", "float") and type(v)(got) == v if abs(v) < 1e18 or model.kind(v) == "int" else True,
                  lambda: "%r is shown as %r, which is %r" % (t[:300], shown[:300], s), {"text": t, "shown": shown})
        ctx.count("shown")


def messages(ctx, env, texts):
    """A request's message is what stands between its quotes."""
    text = "\n".join("request r%d `%s`" % (i, t) for i, t in enumerate(texts))
    reply = env["p"].call({"op": "parse", "text": text})
    why = probe.bad(reply)
    if not ctx.check(why is None and "err" not in reply, lambda: "%r: %s" % (text[:500], why or reply["err"]), {"text": text}): return
    for i, t in enumerate(texts):
        got = reply["requests"].get("r%d" % i, [None])[0]
        ctx.check(got == t, lambda: "the message `%s` is read as %r" % (t[:300], got), {"text": t, "got": got})
        ctx.seen(("message", t), t[:120])
        ctx.count("messages")


def integer(text):
    n = int(text)
    return n if n <= model.MAX else None


def fraction(text):
    x = float(text)
    return x if x <= 1.7976931348623157e308 else None


def literal(rng):
    r = rng.random()
    if r < .3:
        k = rng.choice([1, 2, 3, 5, 9, 10, 11, 15, 16, 17, 18, 19, 19, 19, 20, 21, 30, 40, 60, 200])
        t = rng.choice(["", "", "", "0", "000"]) + "".join(rng.choice("0123456789") for _ in range(k))
        return t, integer(t)
    if r < .36:
        n = rng.choice(list(dictionary.ints()) + gen.INTS) + rng.choice((-1, 0, 0, 1))
        return str(abs(n)), integer(str(abs(n)))
    if r < .6:
        a = "".join(rng.choice("0123456789") for _ in range(rng.choice([1, 1, 2, 3, 8, 16, 17, 20, 40, 300, 308, 309, 310, 400])))
        b = "".join(rng.choice("0123456789") for _ in range(rng.choice([0, 1, 1, 2, 3, 8, 16, 17, 18, 20, 40, 330, 800])))
        if rng.random() < .2: a, b = a.lstrip("0") or "0", "0" * rng.randint(0, 40) + b
        if rng.random() < .04: return a + "." + b + rng.choice([".", ".5", ".."]), None
        return a + "." + b, fraction(a + "." + b)
    if r < .72:
        t = model.positional(abs(rng.choice([gen.floating(rng), rng.uniform(0, 1e22), 2.0 ** rng.randint(-60, 70), rng.random() * 10.0 ** rng.randint(-30, 30)])))
        if "." not in t: t += rng.choice([".", ".0", ".000"])
        return t, float(t)
    if r < .96:
        q = rng.random()
        if q < .35: s = gen.string(rng)
        elif q < .7: s = "".join(rng.choice("ab \t\n\r\\'`{}[]()<>/*#$%&;:,.=!|^~@?0é日😀\u00a0\u3000\u2028\x00\x7f\ufeff") for _ in range(rng.randint(0, 14)))
        elif q < .95: s = "".join(chr(c) for c in (rng.choice([rng.randrange(0x20, 0x7f), rng.randrange(0, 0x500), rng.randrange(0x2000, 0xd800), rng.randrange(0xe000, 0x110000)]) for _ in range(rng.randint(1, 8))))
        else: s = rng.choice("ab é") * rng.choice(dictionary.sizes(20000))
        s = s.replace('"', "'")
        return '"%s"' % s, s
    return ("true", True) if rng.random() < .5 else ("false", False)


def floats():
    """Hard cases of decimal to binary conversion."""
    out = ["0.0", "0.", "00.10", "9007199254740993.0", "9007199254740992.5", "9007199254740993." + "0" * 40 + "1", "0.1", "0.30000000000000004", "2.2250738585072011", "1.7976931348623157" , "123456789012345678901234567890.0", "0." + "0" * 307 + "22250738585072011",
           "0." + "0" * 307 + "22250738585072014", "0." + "0" * 323 + "5", "0." + "0" * 323 + "2", "0." + "0" * 323 + "24703282292062327", "0." + "0" * 323 + "24703282292062328", "179769313486231570" + "0" * 291 + ".0", "6929495644600919.5", "3.7455744005952583", "9214843084008499.0",
           "0.500000000000000166533453693773481063544750213623046875", "30078505129381147446200.0", "18446744073709551615.0", "1.00000000000000011102230246251565404236316680908203125", "1.00000000000000011102230246251565404236316680908203124", "1.00000000000000011102230246251565404236316680908203126",
           "8.10109172351", "5708990770823839207320493820740630171355185151.0"]
    return [(t, float(t)) for t in out]


def directed(ctx, env, w, nw):
    items = []
    for n in gen.INTS + list(dictionary.ints()) + [10 ** k for k in range(25)] + [2 ** k + d for k in range(70) for d in (-1, 0, 1)]:
        for pre in ("", "0", "00000000000000000000000"): items.append((pre + str(abs(n)), integer(str(abs(n)))))
    items += floats()
    items += [("1.2.3", None), ("1..2", None), ("1...", None), ("0.0.", None), ("9223372036854775808", None), ("18446744073709551616", None), ("9" * 400, None), ("0" * 400, 0), ("0" * 400 + "5", 5), ("1." + "0" * 2000, 1.0), ("17976931348623157" + "0" * 292 + ".0", 1.7976931348623157e308), ("17976931348623159" + "0" * 292 + ".0", None), ("2" + "0" * 308 + ".0", None), ("9" * 400 + ".5", None), ("0" * 400 + "1.5", 1.5)]
    chars = [chr(c) for c in list(range(0, 0x250)) + [0x378, 0x85, 0xa0, 0x1680, 0x2000, 0x2028, 0x2029, 0x202e, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff] if c != 0x22]
    items += [('"%s"' % c, c) for c in chars] + [('"%s%s"' % (c, c), c + c) for c in chars[:200]] + [('"a%sb"' % c, "a%sb" % c) for c in chars]
    items += [('"%s"' % s, s) for s in ("\\", "\\\\", "\\n", "\\u0041", "//", "/*", "*/", "# x", "a\nb\n", "\n", " ", "   a   ", "let", "true", "request", "test x {}", "{a}", "`", "1", "1.0", "null", "\r\n", "\t")]
    items += [("true", True), ("false", False)]
    plain = [(t, v, PLACES[i % len(PLACES)]) for i, (t, v) in enumerate(items)] + [(t, v, PLACES[0]) for t, v in items]
    for i in range(0, len(plain), 40):
        if i // 40 % nw == w: judge(ctx, env, plain[i:i + 40])
    texts = [f.replace("X", x) for x in [c for c in chars if c != "`"] + ['"'] for f in ("X", "aXb", " X ", "X\nX")]
    for i in range(0, len(texts), 60):
        if i // 60 % nw == w: messages(ctx, env, texts[i:i + 60])
    some = [("7", 7), ("9223372036854775807", model.MAX), ("2.5", 2.5), ("0.1", .1), ('"a b"', "a b"), ('""', ""), ("true", True), ("false", False), ("99999999999999999999", None), ("1.2.3", None)]
    for i, p in enumerate(PLACES):
        if i % nw == w: judge(ctx, env, [(t, v, p) for t, v in some])
    if w == 0: read(env, ctx, [(t, v) for t, v in floats() if 1e-6 < v < 1e18] + [(str(n), n) for n in gen.INTS if n >= 0])


def case(ctx, rng, env):
    items = [literal(rng) + (rng.choice(PLACES),) for _ in range(40)]
    judge(ctx, env, items)
    messages(ctx, env, [v.replace("`", "'") for _, v, _ in items if isinstance(v, str)])
    nums = [(t, v) for t, v, _ in items if model.kind(v) in ("int", "float") and v == v and abs(v) < 1e300]
    if nums: read(env, ctx, nums)
