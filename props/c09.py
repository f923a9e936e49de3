"""C09: variables in a request message are substituted once and exactly."""
from mon import build as B, dictionary, gen, httpd, model, probe, texts, util, wire

RULE = ("request templates with placeholders (blanks inside, repeated, adjacent, look-alikes, unbound) in path, query, header values and body; variables of every type, whose text may itself look like a placeholder, "
        "change between calls of the same request; the recorded bytes are compared with the template substituted by the reference. Non-trivial: a distinct sent request with at least one substitution.")
FLOOR = 300
BUDGET = {"quick": 20, "thorough": 300}
VARS = ["a", "b", "x1", "_u", "name", "host", "a_b", "A", "id", "status", "body", "let_", "v" * 15, "v" * 16, "n" * 31 + "_32", "long_" * 13, "L" * 128, "w" * 300]
LINES = ["text", "more_text"]  # in bodies only: their values may have several lines


def build(): B.probe()


class Env: pass


def setup(ctx):
    e = Env()
    e.p = probe.Probe()
    e.s = httpd.Server(httpd.respond(httpd.OK))
    return e


def teardown(e):
    e.p.stop()
    e.s.close()


def piece(rng, where):
    r = rng.random()
    if r < .5:
        sp = lambda: rng.choice(["", "", "", " ", "  ", "\t"]) if where != "path" else ""
        return "{%s%s%s}" % (sp(), rng.choice(LINES) if where == "body" and rng.random() < .2 else rng.choice(VARS), sp())
    if r < .7: return rng.choice(["{", "}", "{}", "{1}", "{a-b}", "{{", "}}", "{a.b}", "{é}", "{:}", "{x y}" if where != "path" else "{x", "$", "{\"k\": 1}" if where == "body" else "{,}"])
    return texts.chars(rng, rng.randint(1, 6), "abcXYZ019-_./é日" if where == "path" else "abc XYZ019-_./é日😀")


def template(rng, where): return "".join(piece(rng, where) for _ in range(rng.choice([0, 1, 2, 3, 4, 8]) if rng.random() < .97 else rng.choice([30, 100, 300])))


def value(rng):
    r = rng.random()
    if r < .35: return rng.choice(["", "v", "{a}", "{b}", "{", "}", "a}", "{a", "{name}{id}", "x{ a }y", "é", "日本😀", "$1", "\\1", "${a}", "%41", "a/b", "?q=1", "null", "{x1}" * 3])
    if r < .45: return texts.chars(rng, rng.choice(dictionary.sizes(3000)), "abc{}é")
    if r < .6: return gen.integer(rng)
    if r < .7: return gen.floating(rng)
    if r < .8: return rng.choice([True, False, None])
    if r < .9: return [rng.choice([1, "s", True, None, 1.5]) for _ in range(rng.randint(0, 3))]
    return {rng.choice("ab"): rng.choice([1, "t"])}


def lines(rng): return "".join(rng.choice(["\n", "\n", " ", "\t", "a", "{a}", "é", "}", "X: y", "end", "two\nlines", "x\n\n"]) for _ in range(rng.randint(0, 6)))


def blankless(t): return not any(c in model.TRIM for c in t)


def substitute(t, names): return model.PLACEHOLDER.sub(lambda m: model.text(names.get(m.group(1))), t)


def play(ctx, env, parts, rounds, name="r"):
    """parts: (path, header values, body lines); rounds: names to set before each call."""
    path, hs, body = parts
    base = "http://127.0.0.1:%d" % env.s.port
    m = wire.Message("POST", base + "/" + path, None, [("X-%d" % i, v) for i, v in enumerate(hs)], body)
    t = m.text()
    inside = [x for part in [path] + hs + ["\n".join(body or [])] for x in model.PLACEHOLDER.findall(part)]
    if inside != model.PLACEHOLDER.findall(t): return  # a placeholder across lines of different parts: not what is meant here
    lines, names, want = ["request %s `%s`" % (name, t)], {}, []
    for sets in rounds:
        names.update(sets)
        lines.append("".join("let %s = %s; " % (k, model.layout(model.tokens(gen.lit(v)))) for k, v in sets.items()) + name + "()")
        try: full = ["/" + substitute(path, names), [substitute(v, names) for v in hs], substitute("\n".join(body), names) if body else None]
        except model.Unmodelled: return
        # values whose text would change the structure of the message are judged in the body only
        if not blankless(full[0]) or any("\n" in v for v in full[1]) or "\r" in str(full): return
        want.append(full)
    steps, why = util.session(env.p, lines, idle=90)
    conns = env.s.take()
    replay = {"lines": [l[:4000] for l in lines], "raw": [bytes(c.raw[:3000]).decode("utf-8", "backslashreplace") for c in conns]}
    if not ctx.check(steps is not None, lambda: "%r: %s" % (lines[0][:300], why), replay): return
    for s in steps: ctx.check("ok" in s, lambda: "a line of %r failed: %r" % (lines, s), replay)
    ctx.check(len(conns) == len(want), lambda: "%d calls opened %d connections" % (len(want), len(conns)), replay)
    for c, (p, values, b) in zip(conns, want):
        b = wire.raw_body(b.split("\n")) if b is not None else b""
        why = wire.check(c.raw, "POST", p.split("#")[0], "HTTP/1.1", [("X-%d" % i, v.strip(model.TRIM)) for i, v in enumerate(values)], b)
        ctx.check(why is None, lambda: "template %r with %r: %s" % (t[:600], names, why), replay)
        n = len(model.PLACEHOLDER.findall(t))
        ctx.count("substitutions", n)
        ctx.seen(bytes(c.raw), bytes(c.raw[:160]).decode("utf-8", "replace"), n > 0)


def directed(ctx, env, w, nw):
    cases = [(("{a}", ["{a}"], ["{a}"]), [{"a": v}, {"a": v}]) for v in gen.INTS[:12] + gen.FLOATS[:14] + [True, False, None, "", "s", [], [1, "x"], {}, {"k": 1}]]
    cases += [(("{a}{b}", ["{b}{a}"], ["{ a }{b}", "{a}"]), [{"a": x, "b": y}]) for x in ("{b}", "{a}", "b", "{", "}", "") for y in ("{a}", "{b}", "a}", "", "{")]
    cases += [(("x{a", ["{a", "a}", "{b}a}", "{a b}", "{ a}", "{a }", "{\ta\t}"], ["{", "{a", "}", "a}", "{a}}", "{{a}", "{{a}}", "{\na\n}", "{a\n}"]), [{"a": "V", "b": "W"}])]
    cases += [(("p", ["v"], ["{%s}" % n]), [{n: "value of " + n}]) for n in sorted(set(gen.WORDS) | {x for x in dictionary.words() if x not in gen.KEYWORDS})]
    cases += [(("p", ["{a}"], ["{a}"]), [{}, {"a": "late"}, {}, {"a": 2}])]
    cases += [(("p", ["v"], ["{a}" * n]), [{"a": "é" * k}]) for n in (1, 2, 3, 50) for k in (0, 1, 2, 3, 100)]
    cases += [(("p", ["v"], ["x" * n + "{a}" + "é" * 3 + "{b}"]), [{"a": "A" * 5, "b": "日"}]) for n in dictionary.sizes(9000)]
    cases += [(("{nul}", ["<{unbound}>"], ["{unbound} {a}"]), [{"a": 1}])]
    cases += [(("p", ["v"], ["<{text}>"] * k), [{"text": v}]) for k in (1, 2) for v in ("\n", "a\n", "\na", "a\nb", "\n\n", "a\n\nb", "X: y\n\nz", " ", " a ", "\t", "  \n  ", "\na\n")]
    cases += [(("{%s}" % n, ["{ %s }" % n], ["{%s}{%s}" % (n, n)]), [{}, {n: "bound"}, {n: "again"}]) for n in ("n" * k for k in (2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000))]
    # calls that differ little: the same lengths, one place of a long message
    for n in dictionary.sizes(20000 if ctx.quick else 300000)[5:]:
        cases += [(("{a}", ["{b}"], ["{c}", "x" * n, "{d}"]), [{"a": 11, "b": 11, "c": 11, "d": 11}, {"d": 12}, {"c": 12}, {"b": 12}, {"a": 12}, {"c": 11, "d": 11}, {}]), (("p", [], ["{a}"]), [{"a": "x" * n + "1"}, {"a": "x" * n + "2"}, {"a": "2" + "x" * n}])]
    for i, (parts, rounds) in enumerate(cases):
        if i % nw == w: play(ctx, env, parts, rounds, "r" if i % 3 else "request_" + "of_a_long_name" * (i % 30))


def case(ctx, rng, env):
    parts = (template(rng, "path").replace("?", "").replace("#", ""), ["v" + template(rng, "header") + "v" for _ in range(rng.randint(0, 3))], [template(rng, "body") for _ in range(rng.randint(1, 4))] if rng.random() < .7 else None)
    if parts[2] is not None and not "".join(parts[2]).strip(): parts = (parts[0], parts[1], ["b"])
    if parts[2] is not None: parts[2].append("end")
    rounds = [{n: value(rng) for n in rng.sample(VARS, rng.randint(0, len(VARS)))} | {n: lines(rng) for n in LINES if rng.random() < .7} for _ in range(rng.choice([1, 1, 2, 3]))]
    play(ctx, env, parts, rounds, "r" if rng.random() < .7 else gen.name(rng) + "_" * rng.choice([1, 20, 40, 100]))
