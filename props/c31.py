"""C31: nothing written in an accepted source is ignored, doubled or moved."""
import random
from mon import build as B, dictionary, gen, model, probe, scan

RULE = ("valid programs (expressions, requests with assertions, tests) and mutants of them (words removed, doubled, exchanged, replaced, inserted, glued, cut, foreign characters) are parsed by the real library; when a text is accepted, the words of the parsed expressions, "
        "requests, assertions and tests, taken together, must be exactly the words an independent reader finds in the text, in their order and place; valid programs must be accepted. Non-trivial: a distinct accepted text of at least 3 words.")
FLOOR = 3000
BUDGET = {"quick": 18, "thorough": 300}


def build(): B.probe()
def setup(ctx): return {"p": probe.Probe()}
def teardown(env): env["p"].stop()


def flat(texts): return [w for t in texts for w in scan.words(t, True)]
def listed(texts): return [w for t in texts for w in scan.words(t, True) + [("op", ",")]]


def show(ws): return " ".join(str(v) if k != "str" else '"%s"' % v for k, v in ws)[:500]


def judge(ctx, env, text, valid=False):
    reply = env["p"].call({"op": "parse", "text": text})
    why = probe.bad(reply)
    if not ctx.check(why is None, lambda: "parsing %r: %s" % (text[:500], why), {"text": text}): return
    if "err" in reply:
        ctx.count("refused")
        ctx.check(not valid, lambda: "%r is refused: %s" % (text[:1000], reply["err"]), {"text": text})
        ctx.seen(text, text[:160], False)
        return
    ctx.count("accepted")
    ws = scan.words(text)
    parts = scan.items(ws)
    replay = {"text": text, "reply": reply}
    if not ctx.check(parts is not None, lambda: "%r is accepted though a request or test in it is incomplete" % text[:1000], replay): return
    exprs, requests, tests = parts
    got = scan.bare(flat(reply["ok"]))
    ctx.check(got == scan.bare(exprs), lambda: "%r: its expressions are\n  %s\nbut it is read as\n  %s" % (text[:1000], show(scan.bare(exprs)), show(got)), replay)
    ctx.check(set(requests) == set(reply["requests"]), lambda: "%r: its requests are %r, read are %r" % (text[:1000], sorted(requests), sorted(reply["requests"])), replay)
    for n, (message, asserts) in requests.items():
        m, a = reply["requests"].get(n, (None, []))
        ctx.check(m == message, lambda: "%r: the message of request %s is %r, read is %r" % (text[:1000], n, message, m), replay)
        ctx.check(scan.bare(listed(a)) == scan.bare(asserts), lambda: "%r: the assertions of %s are\n  %s\nbut read as\n  %s" % (text[:1000], n, show(scan.bare(asserts)), show(scan.bare(listed(a)))), replay)
    ctx.check(set(tests) == set(reply["tests"]), lambda: "%r: its tests are %r, read are %r" % (text[:1000], sorted(tests), sorted(reply["tests"])), replay)
    for n, block in tests.items():
        b = reply["tests"].get(n, [])
        ctx.check(scan.bare(flat(b)) == scan.bare(block), lambda: "%r: test %s is\n  %s\nbut read as\n  %s" % (text[:1000], n, show(scan.bare(block)), show(scan.bare(flat(b)))), replay)
    ctx.count("words", len(ws))
    ctx.count("requests", len(requests))
    ctx.count("tests", len(tests))
    ctx.seen(text, text[:160], len(ws) > 2)


MESSAGES = ["GET http://h/", "", "\n  POST http://h:1/{a}\n  A: b\n\n  x: y\n", "GET http://h/[status == 1]", "PUT x \"quoted\" ; // not a comment", "é 日本 {", "let a = 1; test t { 1 }", "\\"]
WORDS = ["let", "if", "else", "true", "false", "request", "test", "a", "b", "x1", "1", "2.5", "0", '"s"', '""', "`m`", "=", "==", "!", "!=", "+", "-", "*", "/", "%", "^", "|", "||", "&", "&&", "<", "<<", "<=", ">", ">>", ">=", ",", ";", ":", ".", "(", ")",
         "{", "}", "[", "]", "~", "@", "#", "$", "?", "'", "\\", "é", "\u200b", "\ufeff", "\x00", "format", "length", "()", "[]", "{}", "null", "not", "-1", "1.", ".5"]


def message(rng):
    if rng.random() < .5: return rng.choice(MESSAGES)
    s = "".join(chr(rng.choice([rng.randrange(0x20, 0x7f), rng.randrange(0, 0x500), rng.randrange(0x2000, 0x2100), rng.randrange(0x2000, 0xd800), rng.randrange(0xe000, 0x110000), 0xfeff, 13, 10])) for _ in range(rng.randint(0, 12)))
    return s.replace("`", "'")


def source(rng, g):
    """(list of words, is it one valid program)"""
    toks = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < .55:
            toks += model.tokens(g.expr(None, rng.randint(0, 3)), extra=(lambda: rng.random() < .1))
            toks.append(";")
        elif r < .8:
            toks += ["request", gen.name(rng) if rng.random() < .8 else rng.choice(["r", "q"]), "`%s`" % message(rng)]
            if rng.random() < .7:
                toks.append("[")
                n = rng.randint(0, 3)
                for i in range(n):
                    toks += model.tokens(g.expr(None, rng.randint(0, 2)))
                    if i < n - 1 or rng.random() < .3: toks.append(",")
                toks.append("]")
            toks += [";"] * (rng.random() < .4)
            # an expression that starts with a bracket right after would be assertions
            if toks[-1] != ";": toks += ["let", "z", "=", "1", ";"]
        else:
            toks += ["test", gen.name(rng) if rng.random() < .8 else rng.choice(["r", "q"]), "{"]
            for _ in range(rng.randint(0, 3)): toks += model.tokens(g.expr(None, rng.randint(0, 2))) + [";"]
            toks.append("}")
            toks += [";"] * (rng.random() < .4)
    return toks


def mutate(rng, toks):
    toks = list(toks)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if not toks: break
        i = rng.randrange(len(toks))
        r = rng.random()
        if r < .25: del toks[i]
        elif r < .4: toks.insert(i, toks[i])
        elif r < .65: toks.insert(i, rng.choice(WORDS + [str(x) for x in list(dictionary.ints())[:20]]))
        elif r < .8: toks[i] = rng.choice(WORDS)
        elif r < .9:
            j = rng.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif r < .95: toks = toks[:i]
        else: toks[i:i] = toks[rng.randrange(len(toks)):][:rng.randint(1, 6)]
    return toks


def join(rng, toks):
    """One blank, or anything else that separates, between words (quotes are words of their own)."""
    return rng.choice(["", " ", "\n"]) + "".join(t + rng.choice([" ", " ", " ", "\n", "\t", " \r\n", "\u3000"]) for t in toks)


def directed(ctx, env, w, nw):
    parts = ["1", "a", '"s"', "[1]", "{1:2}", "(1)", "f(1)", "a.b", "a[0]", "-1", "!a", "1+2", "let a=1", "if(a){b}", "if(a){b}else{c}", "if(a){}else{}", "if(a){}", "true"]
    texts = []
    for a in parts:
        for b in parts:
            for sep in (";", " ", "; ; ", ",", ":", "\n"): texts.append(a + sep + b)
        texts += [a + ";", a + ";;", ";" + a, a + "}", a + ")", a + "]", "{" + a, "(" + a, "[" + a, a + " @", "@ " + a, a + " ~", "~" + a, a + "`x`", "`x`" + a, "[%s,]" % a, "[%s,,]" % a, "[,%s]" % a, "[%s;%s]" % (a, a), "f(%s,)" % a, "f(%s %s)" % (a, a), "{%s:%s,}" % (a, a),
                  "{%s %s}" % (a, a), "(%s;)" % a, "(%s %s)" % (a, a), "a[%s %s]" % (a, a), "a[%s,%s]" % (a, a), "if(%s){%s;%s}" % (a, a, a), "if(%s){%s %s}" % (a, a, a), "if %s {%s}" % (a, a), "if(%s){%s}else{%s}else{%s}" % (a, a, a, a), "if(%s){%s}else if(%s){%s}" % (a, a, a, a),
                  "request r`m`[%s]" % a, "request r`m`[%s,%s]" % (a, a), "request r`m`[%s,]" % a, "request r`m`[%s][%s]" % (a, a), "request r`m`[%s %s]" % (a, a), "request r`m`;[%s]" % a, "request r()`m`[%s]" % a, "request r`m``n`", "request r`m` request r`n`[%s]" % a,
                  "test t{%s}" % a, "test t{%s;%s}" % (a, a), "test t{%s %s}" % (a, a), "test t{%s;;}" % a, "test t{%s}{%s}" % (a, a), "test t{%s} test t{}" % a, "test t{test u{%s}}" % a, "test t{request r`m`[%s]}" % a, "test t{%s} %s" % (a, a), "let a=%s let b=%s" % (a, a),
                  "let a %s" % a, "let %s=%s" % (a, a), "let a=let b=%s" % a, "%s = %s" % (a, a), "a.%s" % a, "%s.b.c" % a, "%s %s %s" % (a, a, a), a + " # c", a + " // c\n" + a, a + " /* c */ " + a]
    # the same thing several times, and separators where there is nothing to separate
    for a in parts:
        for form in ("{%s:1,%s:1}", "{1:%s,1:%s}", "{%s:2,3:4,%s:2}", "[%s,1,%s]", "[%s,%s,%s]", "f(%s,%s)", "f(%s,%s,%s)", "test t{%s;%s}", "test t{%s;%s;%s}", "if(1){%s;%s}", "if(1){}else{%s;%s}", "request r`m`[%s,%s]", "request r`m`[%s,1,%s]", "%s;%s", "%s;%s;%s", "%s\n%s\n%s",
                     "%s;,%s", "%s,;%s", "%s;:%s", ",;%s;%s", "test t{%s;,%s}", "test t{%s,%s}", "if(1){%s,%s}", "(%s,%s)", "(%s;%s)", "[%s;%s]", "[%s,;%s]", "{%s;%s}", "{%s:1;%s:1}", "{%s:1,,%s:1}", "f(%s;%s)", "f(%s,,%s)", "a[%s;%s]", "%s.;b;%s", "if(%s;){%s}", "test;t{%s;%s}",
                     "request;r`m`[%s,%s]", "request r;`m`[%s,%s]", "request r`m`[%s;%s]", "request r`m`,[%s,%s]", "%s,", ",%s", "[%s],", "test t{%s},", "request r`m`[%s],", "request r`m`,%s", "let,a=%s", "let a,=%s", "let a=,%s", "-,%s", "!;%s", "1+;%s", "1+,%s", "1;+%s"):
            texts.append(form.replace("%s", a))
    for i, t in enumerate(texts):
        if i % nw == w: judge(ctx, env, t)


def case(ctx, rng, env):
    g = gen.Gen(rng, risky=.2)
    toks = source(rng, g)
    if len(toks) > 400: return
    judge(ctx, env, join(rng, toks), valid=True)
    for _ in range(12):
        m = mutate(rng, toks)
        text = join(rng, m) if rng.random() < .8 else "".join(m)
        if rng.random() < .1 and text:
            i = rng.randrange(len(text))
            text = text[:i] + rng.choice(["", text[i] * 2, '"', "`", rng.choice(WORDS)]) + text[i + 1:]
        judge(ctx, env, text)
