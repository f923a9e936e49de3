"""C32: a source that is refused, or whose top level fails, runs no test and says so."""
import os, signal, time
from mon import build as B, cli, httpd, util

RULE = ("projects of several files with tests, requests, prints, top-level code get one flaw at a random place - a construct that cannot be read (in an expression, a test, an assertion), an error at the top level, bytes that are no text, a path that does not exist, a test that does not exist - and the real binary runs them with every option; "
        "lines for eval and the REPL likewise. Prints, requests at the server, reports, statistics and record files must be those before the flaw (none at all when reading fails), a message must be given, and the process must end by itself. Non-trivial: a distinct flaw, place and command.")
FLOOR = 300
BUDGET = {"quick": 18, "thorough": 240}
# refused wherever an expression starts
UNREADABLE = ["1 + ;", "a. ;", "let ;", "let = 1;", "let 1 = 1;", "let a 1;", "let a = ;", "[1;", "[1 2];", "[,];", "f(1;", "f(1 2);", "f(,);", "@;", "1 @;", "~1;", "(1;", "();", "(1 2);", "{1};", "{1:};", "{1:2 3:4};", "{:1};", "99999999999999999999;", "1.2.3;", ") ;", "];", "};", "else {};", ": 1;", "= 1;", "== 1;",
              "* 1;", "1 * * 2;", "request ;", "request r;", "request 1 `x`;", "test ;", "test t;", "test `x` {};", "(1)(2);", "\"s\"(1);", "1(2);", "if 1 {};", "if (1);", "if () {};", "if (1) 2;", "if (true) {1} else 2;", "!;", "-;", "a[];", "a[1;", "a[1 2];", "`x`;", "a.1;", "a.\"b\";", ", 1;", ". a;", "$x;", "# x;", "'a';", "é;", "\\;", "1 && ;", "a.let;", "let if = 1;", "let test = 2;"]
FAILS = ["1 / 0", "missing", "nothing()", "length(1)", "1 + \"a\"", "9223372036854775807 + 1", "[1][\"a\"]", "format(\"{a}\")", "println(1)", "-\"a\"", "append(1, 2)", "1 % 0", "1 << 64", "(1).a", "[1 / 0]", "{\"a\": missing}", "let a = 1 / 0", "if (missing) {1}", "-(0 - 9223372036854775807 - 1)", "true + 1", "q(missing)"]


def build(): B.cli()


class Env: pass


def setup(ctx):
    e = Env()
    e.s = httpd.Server(httpd.respond(httpd.OK))
    return e


def teardown(e): e.s.close()


def targets(conns): return [bytes(c.raw).split(b" ")[1].decode() if b" " in c.raw else "?" for c in conns]


def project(rng, port, nfiles):
    """Files as lists of pieces: ("top", text) | ("test", name, [texts]) | ("request", name, [assertions])"""
    files, k = [], 0
    for f in range(nfiles):
        pieces = []
        if f == 0: pieces.append(("request", "q", []))
        if rng.random() < .1: pieces.append(("top", 'let pad%d = "%s"' % (f, "pad " * rng.choice([300, 1100, 2100, 5000, 17000])), None, None))
        for _ in range(rng.randint(1, 4)):
            r = rng.random()
            k += 1
            if r < .3: pieces.append(("top", 'println("@%d@")' % k, "@%d@" % k, None))
            elif r < .45: pieces.append(("top", 'let v%d = [println("@%d@"), p%d()]' % (k, k, k), "@%d@" % k, "/p%d" % k))
            elif r < .55: pieces.append(("top", "let w%d = %d" % (k, k), None, None))
            elif r < .8: pieces.append(("test", "t%d" % k, ['println("@t%d@")' % k, "q()"]))
            else: pieces.append(("request", "r%d" % k, ["status == 200"][:rng.randint(0, 1)]))
            if pieces[-1][0] == "top" and pieces[-1][3]: pieces.insert(-1, ("request", "p%d" % k, []))
        files.append(pieces)
    files[-1].append(("test", "last", ['println("@last@")', "q()"]))
    return files


def render(files, port, sep):
    out = []
    for pieces in files:
        t = ""
        for p in pieces:
            if p[0] in ("top", "flaw"): t += p[1] + sep
            elif p[0] == "test": t += "test %s {\n%s\n}\n" % (p[1], "".join(x + (";" if not x.endswith(";") else "") + "\n" for x in p[2]))
            else: t += "request %s `GET http://127.0.0.1:%d/%s\nConnection: close`%s\n" % (p[1], port, p[1], "[%s]" % ", ".join(p[2]) if p[2] else ";")
        out.append(t)
    return out


OPTIONS = [[], ["-s"], ["-t", "3"], ["-n", "5"], ["-t", "2", "-n", "4", "-s"], ["-d", "600s"], ["-t", "2", "-d", "10m", "-s"]]


def play(ctx, rng, env, flaw, named, options):
    files = project(rng, env.s.port, rng.randint(1, 4) if rng.random() < .85 else rng.randint(5, 12))
    sep = rng.choice([";\n", ";\n", "; "])
    what, want, sent = "", [], []
    kind, text = flaw
    i = rng.randrange(len(files))
    j = rng.randint(1 if i == 0 else 0, len(files[i]))
    name = rng.choice([p[1] for f in files for p in f if p[0] == "test"]) if named else None
    if kind == "unreadable":
        where = rng.choice(["top", "top", "test", "assert"])
        spots = [(a, b) for a, f in enumerate(files) for b, p in enumerate(f) if (p[0] == "test") == (where == "test") and p[0] != "top"]
        if where == "top" or not spots:
            files[i].insert(j, ("flaw", text))
            where = "top"
        else:
            a, b = rng.choice(spots)
            p = files[a][b]
            k = rng.randint(0, len(p[2]))
            files[a][b] = (p[0], p[1], p[2][:k] + [text] + p[2][k:])
        what = "%r %s" % (text, where)
    else:
        if kind == "fails": files[i].insert(j, ("flaw", text))
        for f in files[:i + 1] if kind == "fails" else files:
            for p in f:
                if kind == "fails" and p[0] == "flaw": break
                if p[0] == "top":
                    if p[2]: want.append(p[2])
                    if p[3]: sent.append(p[3])
        what = "%s %r" % (kind, text)
        if kind == "unknown": name = text
    texts = render(files, env.s.port, sep)
    with util.Scratch() as d:
        for n, t in enumerate(texts): util.write(d + "/s/%s.fan" % ("abcdefghijklm"[n] if rng.random() < .8 else "%d/x" % n), t)
        path = d + "/s"
        if kind == "bytes": util.write(d + "/s/" + rng.choice(["a0.fan", "zz.fan", "c/d.fan"]), rng.choice([b"let a = \"\xff\"", b"\xc3", b"println(\"@b@\")\n\xed\xa0\x80", b"\x80"]))
        if kind == "nowhere": path = d + "/" + text
        if kind in ("bytes", "nowhere"): want, sent = [], []
        record = rng.random() < .6
        if record: os.mkdir(d + "/r")
        # files in another order than the list is possible: sort as the program does
        args = ["test"] + ([name] if name is not None else []) + ["-p", path] + options + (["-r", d + "/r"] if record else [])
        if kind not in ("unreadable", "bytes", "nowhere", "unknown"):
            order = sorted(os.path.join(b, f) for b, _, fs in os.walk(d + "/s") for f in fs)
            if [open(x).read() for x in order] != texts: return
        t0 = time.monotonic()
        r = cli.run(args, timeout=60)
        conns = env.s.take()
        left = sorted(os.listdir(d + "/r")) if record else []
    replay = {"files": texts, "args": args, "out": r.text[-4000:], "err": r.err[-2000:].decode("utf-8", "replace")}
    if not cli.over(ctx, r, replay): return
    say = "test %s with %s" % ([a for a in args[1:] if not a.startswith("/tmp")], what)
    marks = [m for l in r.text.split("\n") for m in [l] if l.startswith("@")]
    if kind == "unknown":
        import re
        if order_of(marks) != order_of(want): ctx.violation("%s printed %r, expected %r" % (say, marks, want), replay)
    else: ctx.check(marks == want, lambda: "%s printed %r, expected %r" % (say, marks, want), replay)
    got = targets(conns)
    ctx.check(got == sent if kind != "unknown" else sorted(got) == sorted(sent), lambda: "%s sent %r, expected %r" % (say, got, sent), replay)
    ctx.check("=== TEST" not in r.text and "--- " not in r.text and "count=" not in r.text, lambda: "%s reports %r" % (say, r.text[-600:]), replay)
    rest = [l for l in r.text.split("\n") if l and not l.startswith("@")]
    ctx.check(rest or r.err.strip(), lambda: "%s says nothing" % say, replay)
    if kind == "unknown": ctx.check(any(text in l for l in rest), lambda: "%s does not name it: %r" % (say, rest), replay)
    ctx.check(r.code is not None and r.code >= 0, lambda: "%s ends by signal %s" % (say, r.code), replay)
    if kind in ("unreadable", "fails", "unknown"): ctx.check(r.code in (0, 1, 2) and b"panicked" not in r.err, lambda: "%s ends with %s, %r" % (say, r.code, r.err[-300:]), replay)
    ctx.check(not left, lambda: "%s leaves record files %r" % (say, left), replay)
    ctx.count(kind)
    ctx.count("top_level_effects_before", len(want) + len(sent))
    ctx.seen((what, name is not None, tuple(options), tuple(texts)), say)


def order_of(marks): return sorted(marks)


def line(ctx, rng, env, flaw, how):
    """eval TEXT and REPL lines: all of an unreadable text is without effect, a failing one has the effects before the failure."""
    kind, text = flaw
    req = "request q `GET http://127.0.0.1:%d/q`;" % env.s.port
    parts = ['println("@1@");', "q();", 'println("@2@");']
    k = rng.randint(0, 3)
    source = req + " " + " ".join(parts[:k] + [text if text.endswith(";") else text + ";"] + parts[k:])
    if kind == "unreadable": want, sent = [], 0
    else: want, sent = [w for w, p in (("@1@", 0), ("@2@", 2)) if p < k], int(k > 1)
    after = []
    if how == "eval": r = cli.run(["eval", source], timeout=60)
    else:
        after = ["@after@"]
        r = cli.run([], stdin=source.replace("\n", " ") + '\nprintln("@after@")\n' + ("exit\nprintln(\"@late@\")\n" if rng.random() < .5 else ""), timeout=60)
    conns = env.s.take()
    replay = {"how": how, "source": source, "out": r.text[-3000:], "err": r.err[-1000:].decode("utf-8", "replace")}
    if not cli.over(ctx, r, replay): return
    marks = [l for l in r.text.split("\n") if l.startswith("@")]
    say = "%s of %r" % (how, source)
    ctx.check(marks == want + after, lambda: "%s printed %r, expected %r" % (say, marks, want + after), replay)
    ctx.check(len(conns) == sent, lambda: "%s sent %d requests, expected %d" % (say, len(conns), sent), replay)
    rest = [l for l in r.text.split("\n") if l and not l.startswith("@")]
    ctx.check(len(rest) >= 1 and r.code == 0, lambda: "%s says %r, exit %r" % (say, r.text[:300], r.code), replay)
    ctx.count(how + "_" + kind)
    ctx.seen((how, text, k), say)


def directed(ctx, env, w, nw):
    import random
    jobs = []
    for i, f in enumerate([("unreadable", x) for x in UNREADABLE] + [("fails", x) for x in FAILS]):
        jobs.append((play, f, i % 3 != 0, OPTIONS[i % len(OPTIONS)]))
        jobs.append((line, f, "eval" if i % 3 else "repl"))
    for i, o in enumerate(OPTIONS):
        for n in ("nope", "T1", "las", "last ", "", "q"): jobs.append((play, ("unknown", n), True, o))
        for n in ("nope", "s/a/b", "s.fan"): jobs.append((play, ("nowhere", n), i % 2 == 0, o))
        jobs += [(play, ("bytes", ""), i % 2 == 0, o)] * 2
    for i, j in enumerate(jobs):
        if i % nw == w: j[0](ctx, random.Random("%d:%d" % (ctx.seed, i)), env, *j[1:])


def case(ctx, rng, env):
    r = rng.random()
    flaw = ("unreadable", rng.choice(UNREADABLE)) if r < .5 else ("fails", rng.choice(FAILS)) if r < .85 else ("unknown", rng.choice(["nope", "t", "Last", "t1x", "é", "test"])) if r < .93 else ("bytes", "")
    if flaw[0] in ("unreadable", "fails") and rng.random() < .3: line(ctx, rng, env, flaw, rng.choice(["eval", "repl"]))
    else: play(ctx, rng, env, flaw, rng.random() < .6, rng.choice(OPTIONS))
