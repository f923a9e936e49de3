"""C42: an error says what failed."""
import os, re, socket
from mon import build as B, cli, gen, httpd, lang, model, probe, util, wire

RULE = ("programs whose first failing operation is known from a reference interpreter - every operator with every kind of operand it refuses, alone and inside other constructs; unbound names, unknown functions, indexing, fields, argument counts - and exchanges that fail in a known way (no such host, refused, "
        "no TLS, unreadable file, no HTTP, cut). The error text must name the operation with its two values in order, the name, or the counts, and the kind of failure, and no other. Non-trivial: a distinct program or failure whose message was judged.")
ASSUMPTIONS = ["how an error is worded is free: only that the operands, names and counts are in it, and the words zero, overflow, host, connect, tls, file, response for the failures they name"]
FLOOR = 1500
BUDGET = {"quick": 18, "thorough": 240}


def build():
    B.probe()
    B.cli()


class Env: pass


def setup(ctx):
    e = Env()
    e.p = probe.Probe()
    e.answer = b""
    def handler(conn):
        conn.request()
        conn.send(e.answer)
        conn.fin()
        conn.drain(5)
    e.s = httpd.Server(handler)
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    e.closed_socket, e.closed = s, s.getsockname()[1]
    return e


def teardown(e):
    e.p.stop()
    e.s.close()
    e.closed_socket.close()


class Shown(set):
    complete = True  # whether no other text is possible


def shown(v):
    """The texts a value may have in a message."""
    some = Shown()
    for f in (model.text, model.debug):
        try: some.add(f(v))
        except model.Unmodelled: some.complete = False
    return some


def wrong(err, about, message):
    """Why a message does not say what failed, or None."""
    kind = about[0]
    low = message.lower()
    if not message.strip(): return "is empty"
    if kind == "bin":
        _, op, a, b = about
        left, right = shown(a), shown(b)
        if not left or not right: raise model.Unmodelled("order of map entries")
        places = [(m, x, y) for x in left for y in right for m in re.finditer(re.escape(x) + r"\s*" + re.escape(op) + r"\s*" + re.escape(y), message)]
        if not places:
            if not (left.complete and right.complete): raise model.Unmodelled("how a text is escaped")
            return "does not show %s" % " ".join((sorted(left)[0], op, sorted(right)[0]))
        best = None
        for m, x, y in places:
            rest = (message[:m.start()] + " " + message[m.end():]).lower()
            why = None
            if str(err) == "zero" and "zero" not in rest: why = "does not speak of zero"
            elif str(err) in ("overflow", "shift") and not re.search("overflow|range", rest): why = "does not speak of an overflow"
            elif str(err) != "zero" and "zero" in rest: why = "speaks of zero"
            elif str(err) not in ("overflow", "shift") and "overflow" in rest: why = "speaks of an overflow"
            if why is None: return None
            best = best or why
        return best
    if kind == "un":
        _, op, v = about
        texts = shown(v)
        found = [x for x in texts if op + x in message or op + " " + x in message]
        if not found:
            if not texts.complete: raise model.Unmodelled("how a text is escaped")
            return "does not show %s%r" % (op, v)
        rest = message.replace(max(found, key=len), " ").lower()
        if str(err) == "overflow" and "overflow" not in rest: return "does not speak of an overflow"
        if str(err) == "type" and "overflow" in rest and model.kind(v) not in ("arr", "map", "str"): return "speaks of an overflow"
        return None
    if kind == "ident": return None if re.search(r"(?<!\w)%s(?!\w)" % re.escape(about[1]), message) else "does not name %s" % about[1]
    if kind in ("index", "field"):
        texts = shown(about[1])
        if not texts: raise model.Unmodelled("order of map entries")
        if not any(t in message for t in texts):
            if not texts.complete: raise model.Unmodelled("how a text is escaped")
            return "does not show what has no %s" % kind
        return None if kind in low else "does not speak of %s" % kind
    _, name, args = about
    if name not in gen.NATIVES: return None if re.search(r"(?<!\w)%s(?!\w)" % re.escape(name), message) and "function" in low else "does not name the function %s" % name
    want = None
    if name in ("format", "print", "println") and args and model.kind(args[0]) == "str": want = (len(args) - 1, len(model.PLACEHOLDER.findall(args[0])))
    elif name == "length" and len(args) != 1: want = (len(args), 1)
    if want is not None:
        numbers = [int(n) for n in re.findall(r"\d+", message)]
        return None if numbers == list(want) and "argument" in low else "does not say that there were %d arguments instead of %d" % want
    if name == "length":
        texts = shown(args[0])
        if not texts: raise model.Unmodelled("order of map entries")
        if not any(t in message for t in texts) and not texts.complete: raise model.Unmodelled("how a text is escaped")
        return None if "length" in message and any(t in message for t in texts) else "does not name length and its argument"
    for other in gen.NATIVES - {name, "format", "print"}:
        if re.search(r"\b%s\b" % other, message): return "names %s" % other
    return None if ("array" if name == "append" else "string") in low else "does not say what the first argument of %s must be" % name


def judge(ctx, env, programs, rng=None, style="plain"):
    """programs: lists of trees; each is one session."""
    for exprs in programs:
        try: v, out, m = model.run(exprs)
        except (model.Unmodelled, RecursionError): continue
        if not isinstance(v, model.Error) or v.about is None:
            ctx.count("no_error")
            continue
        text = model.program(exprs, rng, style)
        steps, why = util.session(env.p, [text])
        if not ctx.check(steps is not None, lambda: "%r: %s" % (text, why), {"text": text}): continue
        step = steps[0]
        if not ctx.check("err" in step, lambda: "%r gives %r, an error (%s) is expected" % (text, step, v), {"text": text}): continue
        try: why = wrong(v, v.about, step["err"])
        except model.Unmodelled:
            ctx.count("unmodelled")
            continue
        ctx.check(why is None, lambda: "%r fails at %r; its message %r %s" % (text[:1500], v.about[:2], step["err"], why), {"text": text, "message": step["err"]})
        ctx.count("messages of " + v.about[0])
        ctx.seen(text, "%s -> %s" % (text[:100], step["err"][:100]))


def printed(ctx, env, source, about, err, call="go"):
    """The message reaches the user of the command, once, by eval, repl and a test run."""
    with util.Scratch() as d:
        for how in ("eval", "repl", "test"):
            if how == "eval": r = cli.run(["eval", "--", source], timeout=60)
            elif how == "repl": r = cli.run([], stdin=(source + "\nexit\n").encode(), timeout=60)
            else:
                util.write(d + "/s/a.fan", "test go { %s }" % source)
                r = cli.run(["test", "go", "-p", d + "/s"], timeout=60)
            text = r.out.decode("utf-8", "replace")
            lines = [l for l in text.replace(">> ", "").split("\n") if l.strip()]
            ok = [l for l in lines if wrong(err, about, l) is None]
            ctx.check(len(ok) == 1 and len(lines) == 1, lambda: "%s of %r prints %r" % (how, source, text), {"source": source, "out": text})
            ctx.count("messages printed")


CLASSES = {"host": r"host|resol|lookup|\bdns|\bname\b", "connect": r"connect|refused", "tls": r"tls|ssl|handshake|certificate", "file": r"file|open", "response": r"response|status line|invalid http"}


def exchange(ctx, env, kind, message, answer=b"", files=()):
    env.answer = answer
    steps, why = util.session(env.p, ["request r `%s` [status == 200]\nr()" % message], idle=60)
    if not ctx.check(steps is not None, lambda: "%r: %s" % (message, why), {"message": message}): return
    records = steps[0].get("records") or []
    if not ctx.check(len(records) == 1, lambda: "%r: %d records" % (message, len(records)), {"message": message}): return
    if "error" not in records[0]:
        ctx.count("records without a readable error")
        return
    error = records[0]["error"]
    plain = re.sub(r"end of file|connection (was )?(reset|aborted|closed|lost)|broken pipe", "", error.lower())  # what may happen at any time on a connection
    named = {k for k, p in CLASSES.items() if re.search(p, plain)}
    if kind is None: ctx.check(error == "", lambda: "%r answered %r completes, its error is %r" % (message, answer[:200], error), {"error": error})
    elif kind == "tls": ctx.check(error != "" and not named & {"host", "connect", "file"}, lambda: "%r fails (tls) with the error %r" % (message, error), {"error": error})
    elif kind == "cut": ctx.check(error != "" and not named & {"host", "connect", "tls"}, lambda: "%r answered %r fails with the error %r" % (message, answer[:200], error), {"error": error})
    else: ctx.check(kind in named and not named & ({"host", "connect", "tls"} - {kind}), lambda: "%r fails (%s) with the error %r" % (message, kind, error), {"error": error})
    ctx.count("exchanges " + str(kind))
    ctx.seen((message, answer), "%s -> %s" % (message[:80], error[:80]))


VALUES = [None, True, False, 0, 1, -7, 63, 64, model.MAX, model.MIN, 0.0, 1.5, -2.0, "", "a", "zero", "overflow", "1", [], [1, "a"], [[None]], {}, {"k": 1}]


def directed(ctx, env, w, nw):
    L = gen.lit
    ops = [o for o in model.PREC if o not in ("||", "&&", "==", "!=", "<", ">", "<=", ">=")]
    cases = [[("bin", op, L(a), L(b))] for op in ops for a in VALUES for b in VALUES]
    cases += [[("un", "-", L(v))] for v in VALUES] + [[("index", L(v), L(i))] for v in VALUES for i in (0, "k", None, [1])] + [[("field", ("paren", L(v)), "k")] for v in VALUES]
    cases += [[("id", n)] for n in gen.WORDS] + [[("let", n, ("int", 1)), ("id", n + "x")] for n in gen.WORDS] + [[("call", n, [("int", 1)] * k)] for n in gen.WORDS for k in (0, 2)]
    for k in (20, 33, 41, 65, 81, 129, 257, 1025, 5000):
        n, t, l = "n" * (k - 1) + "z", "t" * (k - 1) + "y", [7] * (k // 3) + [8]
        cases += [[("id", n)], [("call", n, [])]] + [[("bin", op, a, b)] for op in ("+", "<<", "%") for a, b in ((L(t), L(1)), (L(2), L(t)), (L(l), L(t)), (L(l), L(None)))] + [[("field", ("paren", L(t)), "k")], [("index", L(t), L(3))], [("un", "-", L(t))], [("un", "-", L(l))], [("call", "length", [L(5)] * k)]]
    for n in sorted(gen.NATIVES):
        cases += [[("call", n, [])]] + [[("call", n, [L(v)])] for v in VALUES] + [[("call", n, [L(v), L(u)])] for v in VALUES for u in (1, "a")]
        cases += [[("call", n, [("str", "{a} " * k + "t")] + [("int", 7)] * j)] for k in range(0, 14) for j in (0, 1, 2, 3, 10, 12) if j != k]
    # the first that fails, of several
    bad = [("bin", "+", ("int", 1), ("str", "x")), ("bin", "/", ("int", 9), ("int", 0)), ("id", "nowhere"), ("call", "nothing", []), ("un", "-", ("str", "s")), ("bin", "*", L(model.MAX), ("int", 3)), ("bin", "<<", ("int", 5), ("int", 70)), ("call", "length", [("int", 3)])]
    for i, a in enumerate(bad):
        for b in bad[i + 1:] + bad[:i]:
            cases += [[("bin", "-", a, b)], [("arr", [a, b])], [("map", [(("str", "k"), a), (("str", "l"), b)])], [("if", a, [b], [("int", 1)])], [("let", "v", a), b], [("call", "append", [("arr", [a]), b])], [("index", a, b)], [a, b], [("bin", "||", a, b)],
                      [("if", ("bool", True), [("int", 1), a], [b])], [("bin", "&&", ("bool", False), a), b], [("call", "unknown", [("int", 1), a, b])]]
    judge(ctx, env, [c for i, c in enumerate(cases) if i % nw == w])
    for i, e in enumerate(bad):
        if i % nw != w: continue
        v, _, _ = model.run([e])
        printed(ctx, env, model.program([e]), v.about, v)
    port = env.s.port
    ok = wire.response(headers=[("A", "b")], body="hello")
    jobs = [(None, "GET http://127.0.0.1:%d/" % port, ok)] + [("connect", "%s %s://127.0.0.1:%d/" % (m, s, env.closed), b"") for m in ("GET", "POST") for s in ("http", "https")]
    jobs += [("connect", "GET http://[::1]:%d/" % env.closed, b"")]
    jobs += [("host", "GET %s://%s/" % (s, h), b"") for s in ("http", "https") for h in ("no-such.invalid", "no-such.invalid:8080", "a..invalid")]
    jobs += [("tls", "GET https://127.0.0.1:%d/" % port, a) for a in (b"", b"garbage " * 30, ok, b"\x15\x03\x03\x00\x02\x02\x28", b"\x16\x03\x03\x00\x05\x02\x00\x00\x01\x00")]
    jobs += [("response", "GET http://127.0.0.1:%d/" % port, a) for a in (b"hello\r\n\r\n", b"garbage\n\n", b"HTTP/1.1\r\n\r\n", b"HTTP/1.1 abc OK\r\n\r\n")]
    full = wire.response(headers=[("A", "b"), ("Content-Length", "500")], body="x" * 500)
    jobs += [("cut", "GET http://127.0.0.1:%d/" % port, a) for a in (b"", full[:5], full[:20], full[:-1], full[:-400])]
    jobs += [("file", "POST http://127.0.0.1:%d/\nContent-Type: multipart/form-data\n\na: %s" % (port, f), ok) for f in ("@/nonexistent/file.bin", "@nonexistent.bin")]
    for i, (kind, message, answer) in enumerate(jobs):
        if i % nw == w: exchange(ctx, env, kind, message, answer)


def poison(rng, e, bad):
    """Replaces a random place of a tree by a failing one."""
    places = []
    def walk(x, path):
        places.append(path)
        k = x[0]
        if k in ("paren", "let", "un"): walk(x[-1], path + [len(x) - 1])
        elif k == "bin":
            walk(x[2], path + [2])
            walk(x[3], path + [3])
        elif k in ("arr",):
            for i, y in enumerate(x[1]): walk(y, path + [1, i])
        elif k == "call":
            for i, y in enumerate(x[2]): walk(y, path + [2, i])
        elif k == "if":
            walk(x[1], path + [1])
            for i, y in enumerate(x[2]): walk(y, path + [2, i])
            for i, y in enumerate(x[3]): walk(y, path + [3, i])
    walk(e, [])
    def put(x, path):
        if not path: return bad
        y = list(x)
        y[path[0]] = put(y[path[0]], path[1:])
        return tuple(y) if isinstance(x, tuple) else y
    return put(e, rng.choice(places))


def case(ctx, rng, env):
    out = []
    for _ in range(6):
        g = gen.Gen(rng, effects=False, risky=.15)
        prog = g.program(rng.randint(1, 3))
        r = rng.random()
        v = lambda: gen.lit(gen.value(rng, rng.randint(0, 2)))
        if r < .5: bad = ("bin", rng.choice(["+", "-", "*", "/", "%", "^", "|", "&", "<<", ">>"]), v(), v())
        elif r < .6: bad = ("un", "-", v())
        elif r < .7: bad = ("id", gen.name(rng) + "_q")
        elif r < .78: bad = ("call", gen.name(rng) + "_q", [v() for _ in range(rng.randint(0, 2))])
        elif r < .86: bad = ("index", v(), v())
        else: bad = ("call", rng.choice(sorted(gen.NATIVES)), [v() for _ in range(rng.randint(0, 3))])
        i = rng.randrange(len(prog))
        prog[i] = poison(rng, prog[i], bad)
        if sum(lang.size(l) for l in prog) < 500: out.append(prog)
    judge(ctx, env, out, rng, rng.choice(["plain", "tight", "loose"]))
