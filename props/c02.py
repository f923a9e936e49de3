"""C02: evaluating any program ends with a value or an error."""
from mon import build as B, dictionary, gen, model, probe, util

RULE = ("programs: random well- and ill-typed trees, every operator, index and native function over a pool of extreme values, growing strings and "
        "arrays, deep data; the real evaluator runs in a 2 MiB stack under panic, crash and processor-time monitors (overflow checks on). "
        "Non-trivial: a distinct program that parsed.")
FLOOR = 2000
BUDGET = {"quick": 18, "thorough": 300}
OPS = ["+", "-", "*", "/", "%", "^", "|", "&", "<<", ">>", "==", "!=", "<", ">", "<=", ">=", "||", "&&"]
POOL = [None, True, False, 0, 1, -1, 2, 63, 64, 65, -64, 1 << 31, -(1 << 31), 1 << 32, (1 << 32) + 1, model.MAX, model.MIN, model.MAX - 1, 0.0, -0.0, 1.5, 1e308, 5e-324,
        float("nan"), float("inf"), float("-inf"), "", "a", "é", "{x}", [], [1], [[1]], {}, {"a": 1}, {"0": None}]
EXTREME = ["println(format(\"{a}\", {}))", "length()", "length(1)", "length(1, 2)", "append()", "append(1)", "append([])", "append([1], [1])", "format()", "format(1)",
           "format(\"{a}\")", "format(\"\", 1)", "format(\"{a}{b}\", 1)", "print()", "println()", "print(1)", "println([1])", "print(\"{x}\", [1, \"é\"])", "f()", "unknown", "let let = 1",
           "println", "format(\"{é}\", 1)", "format(\"é{a}日{ b }😀\", \"日\", {})", "length(\"é😀\")"]

DEEPER = [("[]", "[a]"), ("{}", "{\"k\": a}"), ("[]", "append([], a)"), ("[]", "[{\"k\": [1, a]}, 2]"), ("1", "if (true) { [a] } else { a }"), ("[]", "append([1], [a])")]


def build(): B.probe()
def setup(ctx): return {"p": probe.Probe()}
def teardown(env): env["p"].stop()


def judge(ctx, env, lines, cpu=10.0, key=None):
    steps, why = util.session(env["p"], lines, cpu=cpu)
    ctx.check(steps is not None, lambda: "evaluating %r: %s" % (lines if len(str(lines)) < 1500 else str(lines)[:1500], why), {"lines": lines if len(str(lines)) < 20000 else str(lines)[:20000]})
    for line, s in zip(lines, steps or ()):
        ctx.count("values" if "ok" in s else "errors" if "err" in s else "parse_errors")
        if "perr" not in s: ctx.seen(key or line, line[:160])
    return steps


def directed(ctx, env, w, nw):
    text = lambda v: model.layout(model.tokens(gen.lit(v)))
    for i, a in enumerate(POOL):
        if i % nw != w: continue
        for b in POOL:
            pre = ["let a = %s; let b = %s" % (text(a), text(b))]
            judge(ctx, env, pre + ["a %s b" % op for op in OPS] + ["-a", "!a", "a[b]", "{a: b}[a]", "[a, b][0]", "append(a, b)", "format(a, b)", "length(a)", "a.b", "if (a) { b } else { a }", "println(\"{a} {b}\", a, b)",
                                       "append([a], b)[1] == b", "(-a) %s b" % OPS[i % 10], "a - -b"], key=None)
    if w == 0:
        judge(ctx, env, EXTREME)
        judge(ctx, env, ["let s = \"é\""] + ["let s = s + s"] * 20 + ["length(s)", "s == s", "format(\"{a}{b}\", s, s) < s"], cpu=60)
        judge(ctx, env, ["let a = []"] + ["let a = append(a, a, 1, \"x\")"] * 12 + ["length(a)", "a == a", "a[0]"], cpu=60)
        judge(ctx, env, ["let m = {}"] + ["let m = {\"k\": m}"] * 100 + ["m == m", "println(\"{m}\", m)"], cpu=60)
        judge(ctx, env, ["let n = 1"] + ["let n = n * 2"] * 70 + ["let n = n + n - 1"] * 70 + ["let f = 2.0"] + ["let f = f * f"] * 20 + ["f", "-f", "f - f", "f < f"])
    # values that nest ever deeper, line by line: somewhere there may be an error, never an overflow
    for i, (first, deeper) in enumerate(DEEPER):
        if (i + 3) % nw != w: continue
        steps = judge(ctx, env, ["let a = %s; 0" % first] + ["let a = %s; 0" % deeper] * 3000 + ["a == a", "let b = a; b != a", "length(format(\"{a}\", a)) > 0", "append([], a) == [a]", "let c = [1, a][1]; 0", "let a = 1; let b = a; let c = b"], cpu=120, key="deeper " + deeper)
        if steps: ctx.count("deepened", sum("ok" in s for s in steps))
    if w == 1 % nw:
        for n in dictionary.ints():
            judge(ctx, env, ["let n = %d" % n, "[1, 2, 3][n]", "[1, 2, 3][-n]", "1 << n", "-1 >> n", "1 << -n", "n * n * n", "-n - n", "7 % n", "7 / n", "7 / -n", "\"abc\"[n]", "{n: 1}[n]", "n + 0.5"])
        for s in dictionary.strings():
            if '"' not in s: judge(ctx, env, ["let s = \"%s\"" % s, "format(s)", "format(s, 1)", "println(s)", "length(s)", "{s: 1}[s]", "s < \"m\"", "s + s"])
        for n in dictionary.words(): judge(ctx, env, ["%s()" % n, "%s(1)" % n, "%s(\"{a}\", 1)" % n, "%s" % n, "let %s = 1; %s" % (n, n), "{\"%s\": 1}.%s" % (n, n), "{\"%s\": 1}" % n])
    if w == 2 % nw:
        for d in (10, 60, 100, 120, 126, 128):
            for a, m, b in (("(", "1", ")"), ("[", "1", "]"), ('{"a":', "1", "}"), ("if (1) {", "1", "}"), ("length([", "1", "])"), ("-", "1", ""), ("!", "1", ""), ("", "1", "+1"), ("let a = ", "1", ""),
                            ("format(\"{a}\",", "1", ")"), ("append([],", "1", ")"), ("[", "1", "][0]"), ("if (", "1", ") {2} else {3}")):
                t = a * d + m + b * d
                judge(ctx, env, [t, "let v = %s" % t, "v == v", "println(\"{v}\", v)", "{\"a\": v}", "[v, v]"], cpu=30)


def case(ctx, rng, env):
    g = gen.Gen(rng, risky=rng.choice([.1, .4, .8]))
    lines = []
    for _ in range(rng.randint(1, 6)):
        lines.append(model.program(g.program(rng.randint(1, 3)), rng, rng.choice(["plain", "loose"])))
    judge(ctx, env, lines)
