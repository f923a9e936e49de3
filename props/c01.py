"""C01: every text parses to a program or an error, in bounded time, without panic or stack overflow."""
from mon import build as B, dictionary, gen, model, probe
from mon.core import Inconclusive

RULE = ("texts: token soups, mutated and truncated programs, unicode noise, nested or chained constructs of up to 10^6 characters, and texts of "
        "growing size whose processor time is compared; each is parsed by the real parser in a 2 MiB stack under a processor-time monitor. "
        "Non-trivial: a distinct text of at least 2 characters that was judged.")
FLOOR = 2000
BUDGET = {"quick": 18, "thorough": 300}
TOKENS = ["=", "==", "!", "!=", "+", "-", "*", "/", "%", "^", "|", "||", "&", "&&", "<", "<=", "<<", ">", ">=", ">>", ",", ";", ":", ".", "(", ")", "{",
          "}", "[", "]", "\"", "\"s\"", "`", "`GET http://h/`", "0", "1", "1.5", "1.2.3", ".5", "9223372036854775807", "9223372036854775808", "a", "_b", "true",
          "false", "request", "let", "if", "else", "test", "f(", "a.b", "a[0]", "\n", " ", "\t", "#", "@", "$", "\\", "'", "é", "日", "\u00a0", "\u2028",
          "\0", "\ufeff", "😀", "?", "~", "null", "1e5", "let x = ", "if (a) {", "} else {", "test t {", "request r `GET /`", "[status == 200]"]
NEST = {"paren": ("(", "1", ")"), "array": ("[", "1", "]"), "map": ('{"a":', "1", "}"), "block": ("if (1) {", "1", "}"), "call": ("f(", "1", ")"),
        "else": ("if (1) {} else {", "1", "}"), "condition": ("if (", "1", ") {}"), "index": ("a[", "1", "]"), "minus": ("-", "1", ""), "not": ("!", "1", ""),
        "let": ("let a = ", "1", ""), "key": ("{", "1", ":1}"), "chain": ("", "1", "+1"), "logic": ("", "1", "&&1"), "indexes": ("", "a", "[0]"), "fields": ("", "a", ".b"),
        "calls": ("", "a", "()"), "mixed": ("([{1:-", "1", "}])"), "right": ("1*(2+", "1", ")"), "open paren": ("(", "", ""), "open array": ("[", "", ""),
        "open map": ("{", "", ""), "open if": ("if (", "", ""), "open call": ("f(", "", ""), "test": ("test t {", "1", "}"), "close": ("", "", ")"), "semi": ("", "1", ";"),
        "lets": ("let a = 1;", "", ""), "commas": ("[", "1", ",1"), "requests": ("request r `GET /`", "", ""), "strings": ('"s" ', "", ""), "templates": ("`t` ", "", "")}

# Constructs around a hole, of the language and of its neighbours: what is repeated n times, alone and after one another.
HOLES = [tuple(h.split("@")) for h in (
    "(@)", "[@]", "[1, @]", "[@, 1]", '{"a": @}', "{@: 1}", '{"a": 1, "b": @}', "f(@)", "f(1, @)", "a[@]", "@[0]", "@.b", "@()", "@(1)", "@[1](2).c", "-@", "!@", "!-@", "+@", "~@", "&@", "*@", "@!", "@?", "@++", "let a = @", "let a = @;",
    "let @ = 1", "let @", "a = @", "a == @", "@ == 1", "1 + @", "@ + 1", "1 * @", "@ * 1", "1 + 2 * @", "@ * 2 + 1", "@ && 1", "1 || @", "@ < 1", "1 < @", "@ & 1", "@ | 1", "@ << 1", "1 >> @", "@ ? 1 : 2", "1 ? @ : 2", "1 ? 2 : @",
    "if (1) { @ }", "if (@) { 1 }", "if @ { 1 }", "if (1) { 1 } else { @ }", "if (1) { @ } else { 1 }", "if (1) { 1 } else @", "if (1) {} else @", "else @", "if (1) {} else if (@) {}", "if @", "if (1) @", "if (1) { 1 } elif @", "if (1) {} @", "if (1) {} else {} @",
    "test t { @ }", "test @", "test t { 1 } @", "request r `GET /` [@]", "request r `GET /` [1 == @]", "request r `GET /` [@ == 1]", "request r `GET /` [a, @]", "request r `@`", "request @", "request r `GET /` @", "request r @",
    "{ @ }", "{ @; 1 }", "; @", "@;", "@; 1", ", @", "@,", "while (1) { @ }", "for (;;) { @ }", "for i in a { @ }", "fn f(x) { @ }", "fn(x) { @ }", "function f() { @ }", "|x| @", "x => @", "return @", "not @", "a.@", ".@", "..@", "@..1", "@...1", ": @", "@ :", "# @", "// @\n", "/* @ */", "\"@\"", "`@`", "`{@}`", "${@}",
    "@\n", "\n@", "\t@", " @", "0@", "1.@", ".0@", "1 @", "a @", '"s" @', "`t` @", "true @", "null @", "@ as x", "@ in x", "import @", "match a { @ }", "try { @ } catch {}", "async @", "await @", "@ |> f", "f @", "f(1) @", "[1] @", "{} @", "[] @", "() @", "(1) @", "[@", "{@", "(@", "@]", "@}", "@)", "\"@", "`@", "\u00e9@", "_@")]

LONG = [("", "a", ""), ("", "1", ""), ("1.", "1", ""), ("", " ", "1"), ("", "\n", "1"), ("", "\t", "1"), ("", "\r\n", "1"), ('"', "a", '"'), ('"', "a", ""), ('"', "é", '"'), ('"', " ", '"'), ('"', "\n", '"'), ("`", "a", "`"), ("`", "\n", "`"), ("`", "{a}", "`"), ("`", "a", ""),
        ("request r `GET http://h/", "a", "`"), ("request r `GET /\n", "A: b\n", "`"), ("request r `GET /\n\n", "x\n", "`"), ("request r `GET /` [", "a == 1, ", "a == 1]"), ("", "é", ""), ("", "\u00a0", ""), ("", "日", ""), ("", "#", ""), ("", "\0", ""), ("", "_", ""), ("", "-1", ""), ("", "1 ", ""), ("", "a ", ""),
        ("", "a;", ""), ("[", "1,", "1]"), ("{", '"a":1,', '"a":1}'), ("f(", "1,", "1)"), ("test t {", "1;", "}"), ("", "request r `GET /` [a == 1]\n", ""), ("", "test t { 1 }\n", ""), ("let ", "a", " = 1"), ("", "\\", ""), ('"', "\\", '"'), ('"', '\\"', '"')]
FLAT = ["(1);", "((1)+(2));", "[1];", "[[1],[2],[]];", '{"a": {"b": 1}};', "{};", "f(1);", "f(g(1), h(2));", "a[0];", "a[b[0]];", "a.b;", "a.b.c;", "-1;", "--1;", "!true;", "!!a;", "if (1) { 2 };", "if (1) { 2 } else { 3 };", "if ((1)) { if (2) { (3) } else { [4] } };",
        "let a = 1;", "let a = (1);", "let a = [let b = 2];", "1 + (2 * (3 - 4));", "a && (b || (c && d));", "(1 < 2) == (3 > 4);", '"s";', "1;", "1.5;", "f();", "f(1)[0].c;", "[];", "-(-(1));", "if (1) {};", "if (1) {} else {};",
        "request r `GET /` [a == 1]\n", "request r `GET /` [(a) == (1), [1] == [2], f(1) == -1]\n", "test t { 1 }\n", "test t { if (1) { (2) } }\n", "request r `GET /`\n", "let a = if (1) { 2 } else { 3 };"]
ACCEPT = {"paren", "array", "map", "block", "call", "else", "condition", "index", "minus", "not", "let", "key", "chain", "logic", "indexes", "fields", "right", "lets"}


def build(): B.probe()


def setup(ctx): return {"p": probe.Probe()}
def teardown(env): env["p"].stop()


def judge(ctx, env, text, sample=None, accept=False, cpu=10.0):
    reply = env["p"].call({"op": "quick", "text": text}, cpu=cpu)
    why = probe.bad(reply)
    short = text if len(text) < 3000 else {"start": text[:300], "end": text[-200:], "length": len(text)}
    ctx.check(why is None, lambda: "parsing %r: %s" % (text[:300], why), {"text": short})
    if accept: ctx.check("ok" in reply, lambda: "ordinary nesting is rejected: %r: %r" % (text[:120], reply), {"text": short})
    ctx.count("programs" if "ok" in reply else "parse_errors")
    ctx.seen(text if len(text) < 200 else hash(text), sample or (text if len(text) < 120 else text[:100] + "..."), len(text) > 1)
    return reply


def nested(n, depth, rng=None): a, m, b = NEST[n]; return a * depth + m + b * depth


def directed(ctx, env, w, nw):
    for i, n in enumerate(sorted(NEST)):
        if i % nw != w: continue
        for d in range(1, 33): judge(ctx, env, nested(n, d), accept=d <= 24 and n in ACCEPT)
        for d in (64, 100, 126, 127, 128, 129, 130, 200, 500, 1000, 2000, 5000, 20000, 100000): judge(ctx, env, nested(n, d), {"nest": n, "depth": d}, cpu=60)
        # processor time grows with the size, not with its square
        times = []
        for d in (40000, 160000):
            r = judge(ctx, env, "1;" + nested(n, d), {"nest": n, "depth": d}, cpu=90)
            times.append(r["_cpu"])
        if times[1] > 1.5:
            ctx.check(times[1] < 11 * max(times[0], .05), "time grows faster than the text: %s x40000 took %.2f s, x160000 %.2f s" % (n, *times), {"nest": n})
        ctx.peak("parse_cpu_ms", int(times[1] * 1000))
    # one long thing, and many small things one after another, whose nesting does not add up
    for i, (a, u, b) in enumerate(LONG):
        if i % nw != w: continue
        times = [judge(ctx, env, a + u * n + b, {"long": u, "times": n}, cpu=60)["_cpu"] for n in (1, 2, 127, 20000, 80000, 320000)]
        if times[-1] > 1.5: ctx.check(times[-1] < 11 * max(times[-2], .05), "time grows faster than the text: %r x80000 took %.2f s, x320000 %.2f s" % (u, *times[-2:]), {"long": u})
    for i, u in enumerate(FLAT):
        if i % nw != w: continue
        once = "ok" in judge(ctx, env, u)
        for n in (2, 65, 130, 260, 1030, 5000): judge(ctx, env, u * n, {"again": u, "times": n}, accept=once, cpu=60)
    for i, (a, b) in enumerate(HOLES):
        if i % nw != w: continue
        for d in (2, 3, 60, 128, 129, 3000, 60000): judge(ctx, env, a * d + "1" + b * d, {"around": a + "@" + b, "depth": d}, cpu=60)
        judge(ctx, env, a * 60000, {"before": a, "depth": 60000}, cpu=60)
        judge(ctx, env, "1" + b * 60000, {"after": b, "depth": 60000}, cpu=60)
    for i, t in enumerate(TOKENS):
        if i % nw == w:
            for u in TOKENS: judge(ctx, env, t + u); judge(ctx, env, "a " + t + u + " b")


def mutate(rng, s):
    s = list(s)
    for _ in range(rng.randint(1, 4)):
        if not s: break
        i = rng.randrange(len(s))
        r = rng.random()
        if r < .3: del s[i:i + rng.randint(1, 3)]
        elif r < .6: s.insert(i, rng.choice(TOKENS))
        elif r < .8: s[i] = rng.choice(TOKENS)
        elif r < .9: s = s[:i]
        else: s[i:i] = s[max(0, i - rng.randint(1, 20)):i]
    return "".join(s)


def case(ctx, rng, env):
    r = rng.random()
    if r < .4:
        g = gen.Gen(rng)
        text = model.program(g.program(rng.randint(1, 4)), rng, rng.choice(["plain", "tight", "loose"]))
        if rng.random() < .2: text = "test t { %s } request r `GET http://h/{a}\n\nbody` [status == 1, %s]" % (text, text.rstrip(";").replace(";", ","))
        for _ in range(4): judge(ctx, env, mutate(rng, text))
    elif r < .7:
        sep = rng.choice(["", " ", " "])
        for _ in range(4): judge(ctx, env, sep.join(rng.choice(TOKENS) for _ in range(rng.randint(1, 30))))
    elif r < .8:
        for _ in range(4): judge(ctx, env, "".join(chr(rng.choice([rng.randrange(0, 128), rng.randrange(0, 0x800), rng.randrange(0, 0xd7ff), rng.randrange(0xe000, 0x10ffff)])) for _ in range(rng.randint(1, 60))))
    elif r < .82:  # constructs inside one another, many times
        parts = [rng.choice(HOLES) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        a, b = "".join(p[0] for p in parts), "".join(p[1] for p in reversed(parts))
        n = rng.choice([5, 127, 3000, 30000])
        judge(ctx, env, a * n + rng.choice(["1", "a", "", "{}", "[]", "if (1) {}"]) + b * n, {"around": a + "@" + b, "depth": n}, cpu=60)
    elif r < .9:
        words = dictionary.strings() + tuple(map(str, dictionary.ints()))
        for _ in range(4): judge(ctx, env, " ".join(rng.choice(words) for _ in range(rng.randint(1, 12))))
    else:  # nested random mix
        parts = [NEST[rng.choice(["paren", "array", "map", "block", "call", "index", "minus", "not", "let", "condition", "key"])] for _ in range(rng.choice([3, 10, 30, 60, 100, 125, 128, 131, 300, 3000]))]
        text = "".join(p[0] for p in parts) + "1" + "".join(p[2] for p in reversed(parts))
        judge(ctx, env, text, cpu=30, accept=len(parts) <= 30)

