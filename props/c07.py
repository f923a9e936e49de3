"""C07: a REPL session equals one program fed line by line."""
import os, pty, time
from mon import build as B, cli, gen, httpd, lang, model, util

RULE = ("random REPL sessions (bindings, prints, errors in the middle of a line, parse errors, blank lines, invalid bytes, request declarations and calls, `exit` or end of input with or "
        "without a final newline) piped into the real binary; unique markers delimit each line's output, which is compared with a reference interpreter; sessions whose input is a directory, a closed pipe or a terminal that goes away. "
        "Non-trivial: a distinct session of at least two judged lines.")
FLOOR = 150
BUDGET = {"quick": 20, "thorough": 300}
BODY = b"HTTP/1.1 200 Fine\r\nX: y\r\n\r\nanswer"


def build(): B.cli()
def setup(ctx): return httpd.Server(httpd.respond(BODY))
def teardown(env): env.close()


class Session:
    """Builds the input of a session and what each of its lines must print."""

    def __init__(self, rng, env):
        self.rng, self.env = rng, env
        self.m = model.Machine(call=self.request)
        self.lines, self.want, self.requests, self.hits = [], [], {}, []

    def request(self, m, name, args):
        if name not in self.requests: return False, None
        self.hits.append(substituted(self.requests[name], m.names))
        return True, {"version": "HTTP/1.1", "status": 200, "reason": "Fine", "headers": {"X": ["y"]}, "body": "answer"}

    def add(self, line, want):
        """want: (kind, printed, value) with kind value/error/none/any."""
        self.lines.append(line if isinstance(line, bytes) else line.encode())
        self.want.append(want)

    def program(self, exprs, style="plain"):
        text = model.program(exprs, style=style)
        if "\n" in text or "\r" in text: return
        self.m.out = []
        try: want = ["value", None, self.m.block(exprs)]
        except model.Error: want = ["error", None, None]
        want[1] = "".join(self.m.out)
        self.add(text, want)


def substituted(path, names):
    return model.PLACEHOLDER.sub(lambda m: model.text(names.get(m.group(1))), path)


def play(ctx, s, end):
    marks, data = [], []
    for i, line in enumerate(s.lines):
        data.append(line)
        mark = "#%d#%d#" % (ctx.worker, i)
        data.append(('println("%s")' % mark).encode())
        marks.append((mark + "\nnull\n").encode())
    if end == "exit": data += [b"exit", b'println("AFTER EXIT")']
    stdin = b"\n".join(data) + (b"\n" if end != "bare" else b"")
    if end == "crlf": stdin = stdin.replace(b"\n", b"\r\n")
    r = cli.run([], stdin=stdin, timeout=60)
    replay = {"stdin": stdin.decode("utf-8", "backslashreplace"), "out": r.text[-4000:]}
    if r.timeout:
        # end of input was given: a session that still runs after a minute does not end
        ctx.check(False, "the session did not end within 60 s of the end of its input", replay)
    ctx.check(r.code == 0, lambda: "the session ended with %r" % r.code, replay)
    ctx.check(b"AFTER EXIT" not in r.out, "a line after exit was evaluated", replay)
    rest = r.out
    for line, mark, want in zip(s.lines, marks, s.want):
        i = rest.find(mark)
        if not ctx.check(i >= 0, lambda: "after line %r the session no longer evaluates: %r" % (line, rest[-300:]), replay): return
        got, rest = rest[:i], rest[i + len(mark):]
        kind, out, v = want
        if kind == "any": continue
        try: exp = (out + model.text(v) + "\n").encode() if kind == "value" else out.encode()
        except model.Unmodelled:
            kind, exp = "loose", out.encode()
        if kind == "value": ok = got == exp
        elif kind == "none": ok = got == b""
        elif kind == "loose": ok = got.startswith(exp) and len(got) > len(exp)
        else: ok = got.startswith(exp) and len(got) > len(exp) and got.endswith(b"\n")
        ctx.check(ok, lambda: "line %r printed %r, expected %s %r" % (line, got[:500], kind, exp[:500]), replay)
        ctx.count(kind)
    ctx.check(rest == b"", lambda: "printed after the last line: %r" % rest[:300], replay)
    ctx.seen((tuple(s.lines), end), b"; ".join(s.lines)[:200].decode("utf-8", "replace"), len(s.lines) > 1)


BAD = ["let", "let x =", "(1", "1 +", "{", "]", "if (1) {", "@", "let 1 = 2", "f(1,,2)", "request r", "\"a\" + )", "9223372036854775808", "#", "let a = 1; let b = (", "test", "a.1", "&& 1"]


def fill(s, n):
    rng = s.rng
    g = gen.Gen(rng, risky=.1)
    for _ in range(n):
        r = rng.random()
        if r < .5: s.program(g.program(rng.randint(1, 3)), rng.choice(["plain", "tight"]))
        elif r < .6: s.program([("let", "k%d" % rng.randint(0, 5) if rng.random() < .8 else gen.name(rng), gen.lit(gen.value(rng, 1)))])
        elif r < .68: s.program([("id", "k%d" % rng.randint(0, 6))])
        elif r < .76: s.add(rng.choice(BAD), ("error", "", None))
        elif r < .82: s.add(rng.choice(["", " ", "\t", "   ", "\u00a0"]), ("none", "", None))
        elif r < .85: s.add(rng.choice([b"\xff\xfe", b'let z = "\xc3"', b"\x80"]), ("any", "", None))
        elif r < .88: s.add(rng.choice(["exit ", " exit", "exit;", "exit()", "EXIT", "quit"]), ("error", "", None))
        elif r < .94:
            n = rng.choice(["r1", "r2", "length"])
            path = rng.choice(["/a", "/b?{k1}", "/c/{ k2 }/{k1}"])
            s.requests[n] = path
            s.add("request %s `GET http://127.0.0.1:%d%s`" % (n, s.env.port, path), ("value", "", None))
        else:
            n = rng.choice(["r1", "r2"])
            if n in s.requests: s.program([("field", ("call", n, []), rng.choice(["status", "body", "reason"]))])
            else: s.add("%s()" % n, ("error", "", None))


def finish(ctx, s, end):
    play(ctx, s, end)
    conns = s.env.take()
    try: want = [h for h in s.hits]
    except model.Unmodelled: return
    got = []
    for c in conns:
        line = bytes(c.raw).split(b"\r\n")[0].decode("utf-8", "replace")
        got.append(line[4:line.rfind(" HTTP/")])
    # a value with blanks in a request line ends the path there: compared up to the first blank
    want = [w.split()[0].split("#")[0] for w in want]
    ctx.check([g.split()[0] if g.split() else "" for g in got] == want, lambda: "requests sent %r, expected %r" % (got, want), {"lines": [l.decode("utf-8", "replace") for l in s.lines]})
    ctx.count("requests", len(got))


def unreadable(ctx):
    """Input that ends, or that cannot be read: from the beginning, or from some line on (its terminal went away)."""
    with util.Scratch() as d:
        for what, flags in (("a directory", os.O_RDONLY), ("the null device", None), ("a terminal that goes away", None), ("a pipe nobody writes", None)):
            for lines in (0, 1, 3):
                rest = None
                if what == "a directory": f = os.open(d, flags)
                elif what == "the null device": f = os.open("/dev/null", os.O_RDONLY)
                elif what == "a pipe nobody writes":
                    f, rest = os.pipe()
                    os.write(rest, b"let a = 1; println(\"@{a}@\", a)\n" * lines)
                    os.close(rest)
                    rest = None
                else: rest, f = pty.openpty()
                p = cli.spawn([], stdin=f)
                os.close(f)
                if rest is not None:
                    for _ in range(lines):
                        os.write(rest, b"let a = 1; println(\"@{a}@\", a)\n")
                        until = time.monotonic() + 30
                        # it has been read before the terminal goes away
                        while os.fstat(p.out.fileno()).st_size < 9 * (_ + 1) and time.monotonic() < until: time.sleep(.005)
                    os.close(rest)
                r = cli.finish(p, 40)
                n = lines if what.startswith(("a terminal", "a pipe")) else 0
                said = "with %s as input, after %d lines" % (what, n)
                replay = {"out": r.text[-2000:], "err": r.err[-1000:].decode("utf-8", "replace")}
                if r.timeout: ctx.violation("%s the session does not end" % said, replay)
                ctx.check(r.code == 0 and r.text == "@1@\nnull\n" * n, lambda: "%s: exit %r, printed %r" % (said, r.code, r.text[:300]), replay)
                ctx.count("unreadable")
                ctx.seen((what, n), said)


def directed(ctx, env, w, nw):
    import random
    if w == 0:
        for end in ("exit", "eof", "bare", "crlf"):
            s = Session(random.Random(1), env)
            s.program([("let", "a", ("int", 1))])
            s.add("let b = a + 1; print(\"p\"); nope; let c = 3", ("error", "p", None))
            s.m.names["b"] = 2
            s.program([("bin", "+", ("id", "a"), ("id", "b"))])
            s.program([("id", "c")])
            for bad in BAD:
                s.add(bad, ("error", "", None))
                s.program([("bin", "+", ("id", "a"), ("id", "b"))])
            finish(ctx, s, end)
        for data in (b"", b"\n", b"exit", b"exit\n", b"\n\nexit\n1\n"):
            r = cli.run([], stdin=data, timeout=60)
            ctx.check(not r.timeout and r.code == 0 and r.out == b"", lambda: "input %r: exit %r, printed %r" % (data, r.code, r.out), {"stdin": repr(data)})
            ctx.seen(data, nontrivial=False)
    if w == 3 % nw: unreadable(ctx)
    if w == 2 % nw:  # long lines
        s = Session(random.Random(3), env)
        for n in (100, 1023, 4095, 8191, 8192, 8193, 65535, 65536, 200000): s.program([("let", "s%d" % n, ("str", "é" * n)), ("call", "length", [("id", "s%d" % n)])])
        for n in (1000, 30000): s.add("print(\"%s\"); nope" % ("x" * n), ("error", "x" * n, None))
        s.program([("call", "length", [("id", "s100")])])
        finish(ctx, s, "eof")
    if w == 1 % nw:  # a long session
        s = Session(random.Random(2), env)
        s.program([("let", "n", ("int", 0))])
        for i in range(600): s.program([("let", "n", ("bin", "+", ("id", "n"), ("int", 1)))] + ([("let", "v%d" % i, ("id", "n"))] if i % 3 == 0 else []))
        for i in range(0, 600, 3): s.program([("id", "v%d" % i)])
        finish(ctx, s, "eof")


def case(ctx, rng, env):
    s = Session(rng, env)
    try: fill(s, rng.choice([2, 5, 12, 40]))
    except (model.Unmodelled, RecursionError): return
    finish(ctx, s, rng.choice(["exit", "eof", "bare", "eof"]))
