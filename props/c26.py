"""C26: every .fan file is loaded once, in path order; a named run executes that test and no other."""
import collections, os, re
from mon import build as B, cli, httpd, util

RULE = ("random directory trees (nested directories, names whose order as text and as paths differs, other extensions, hidden and empty files, files without an end of line) whose files print markers, rebind names and define tests and requests, some twice; "
        "the order of what is printed, the tests that run and the definitions that count are compared with the sorted tree. Non-trivial: a distinct tree with at least two .fan files, or a distinct run of a name.")
FLOOR = 300
BUDGET = {"quick": 18, "thorough": 240}
STEMS = ["a", "b", "ab", "a-b", "a.b", "a_b", "A", "Z", "_", "0", "10", "2", "é", "日", "a b", "test", "fan", "x.fan", ".h", "-", "~", "aa", "a-", "z" * 100, "a+b", "(1)", "\udcff"]
OTHER = [".txt", "", ".fan.bak", ".FAN", ".fan~", ".fa", ".json", ".fanx", ".Fan", "fan"]


def build(): B.cli()


class Env: pass


def setup(ctx):
    e = Env()
    e.s = httpd.Server(httpd.respond(httpd.OK))
    return e


def teardown(e): e.s.close()


def tree(rng, depth, n):
    """path components (tuple) -> "fan" | "other" | "dir" """
    out = {}
    dirs = [()]
    for _ in range(n):
        base = rng.choice(dirs)
        r = rng.random()
        stem = rng.choice(STEMS)
        name = stem + (rng.choice(OTHER) if r < .2 else "" if r < .4 else ".fan")
        if r > .96 and stem != ".h": name = stem + ".fan"
        path = base + (name,)
        if path in out or len(name.encode("utf-8", "surrogateescape")) > 200: continue
        if .2 <= r < .4 and len(base) < depth or r > .97:
            out[path] = "dir"
            dirs.append(path)
        else: out[path] = "fan" if is_fan(name) else "other"
    return out


def is_fan(name):
    """The extension is what follows the last dot of a name that has something before it."""
    return len(name) > 4 and name.endswith(".fan")


def order(paths): return sorted(paths, key=lambda p: tuple(os.fsencode(c) for c in p))


def play(ctx, rng, env, spec, how, plain=False):
    files = order(p for p, k in spec.items() if k == "fan")
    tests = ["t%d" % i for i in range(rng.randint(1, 4))]
    final, texts, expected, bound, request, same = {}, {}, [], "none", None, 0
    again = rng.choice([0, .1, .5])
    for i, p in enumerate(files):
        if not plain and rng.random() < .12:
            texts[p] = rng.choice(["", "\n", "  \n\n"])
            continue
        if not plain and rng.random() < again:  # files that do not differ
            texts[p] = 'println("@C{a}@", c)\nlet c = c + 1'
            expected.append("C%d" % same)
            same += 1
            continue
        t = 'println("@F%d {a}@", v)' % i
        expected.append("F%d %s" % (i, bound))
        if plain or rng.random() < .8:
            t += rng.choice(["; ", "\n", ";\r\n"]) + 'let v = "v%d"' % i
            bound = "v%d" % i
        if not plain:
            for n in tests:
                if rng.random() < .4:
                    t += "\ntest %s { println(\"@T%s %d@\"); q() }" % (n, n, i)
                    final[n] = i
            if rng.random() < .5:
                t = "request q `GET http://127.0.0.1:%d/q%d`\n" % (env.s.port, i) + t
                request = i
        # ends and starts that would make another token of two
        if not plain: t = rng.choice(["", "", "4; ", "v; "]) + t + rng.choice(["", "\nlet u = v", "\nlet u = 3", "\nlet u = 2.5", "\nlet u = true"])
        texts[p] = t + rng.choice(["", "", "\n", "\r\n", " ", ";"])
    texts_first = 'let v = "none"\nlet c = 0\nrequest q `GET http://127.0.0.1:%d/none`\n' % env.s.port
    if files:
        texts[files[0]] = texts_first + texts[files[0]]
    name = None
    if how == "named": name = rng.choice(tests)
    if how == "unknown": name = rng.choice(["t9", "T0", "t", "q", "println", "t0 ", ""])
    with util.Scratch() as d:
        root = os.fsencode(d) + b"/" + os.fsencode(rng.choice(["src", "s p", "x.fan", ".hidden"]))
        os.makedirs(root)
        links, linked = rng.choice([0, 0, 0, .2, 1]), 0
        for p, k in sorted(spec.items(), key=lambda x: (x[1] != "dir", rng.random())) if links else sorted(spec.items(), key=lambda x: rng.random()):
            f = os.path.join(root, *map(os.fsencode, p))
            if k == "dir":
                if rng.random() < links and not os.path.lexists(f) and not any(q[:len(p)] == p and q != p and kk == "dir" for q, kk in spec.items()):
                    linked += 1
                    os.makedirs(d + "/far/%d" % linked)
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    os.symlink(os.fsencode(d + "/far/%d" % linked), f)
                os.makedirs(f, exist_ok=True)
                continue
            os.makedirs(os.path.dirname(f), exist_ok=True)
            if rng.random() < links:  # the same file by another way
                os.makedirs(d + "/far", exist_ok=True)
                linked += 1
                os.symlink(os.fsencode(d + "/far/%d" % linked), f)
                f = os.fsencode(d + "/far/%d" % linked)
            with open(f, "wb") as o: o.write(texts[p].encode() if k == "fan" else b'println("@OTHER@")\nlet v = "other"\n')
        ups = 0
        for p in rng.sample([()] + [p for p, k in spec.items() if k == "dir"], 1) * rng.choice([0, 0, 0, 1, 2]) + [()] * (rng.random() < .1):
            # links back up: what is below them has been read already
            f = os.path.join(root, *map(os.fsencode, p), os.fsencode(rng.choice(["up", "0", "zz.fan", ".up", "é"])))
            if os.path.lexists(f): continue
            above = os.path.join(root, *map(os.fsencode, p[:rng.randint(0, len(p))]))
            os.symlink(rng.choice([b".", os.path.realpath(above), above, above + b"/."]), f)
            ups += 1
        if linked and rng.random() < .5:
            os.symlink(root, os.fsencode(d) + b"/way")
            root = os.fsencode(d) + b"/way"
        args = ["test"] + ([name] if name is not None else [])
        if rng.random() < .25: r = cli.run(args, cwd=root)
        else: r = cli.run(args + ["-p", root if rng.random() < .5 else root + b"/"])
        conns = env.s.take()
    what = "%s of %s" % (args, [("/".join(p), k) for p, k in sorted(spec.items())][:40])
    replay = {"tree": [["/".join(p).encode("utf-8", "backslashreplace").decode(), k, texts.get(p)] for p, k in sorted(spec.items())], "args": repr(args), "out": r.text[-5000:], "err": repr(r.err[-1000:])}
    if not cli.over(ctx, r): return
    got = re.findall("@([^@\n]*)@", r.text)
    head, runs = [x for x in got if x[0] in "FC"], [x for x in got if x[0] == "T"]
    ctx.check(head == expected, lambda: "%s: the files print %r, expected %r" % (what, head, expected), replay)
    ctx.check(len(head) + len(runs) == len(got) and r.code == 0, lambda: "%s: printed %r, exit %r %r" % (what, got, r.code, r.err[:300]), replay)
    if name is None: want = ["T%s %d" % x for x in final.items()]
    else: want = ["T%s %d" % (name, final[name])] if name in final else []
    ctx.check(sorted(runs) == sorted(want), lambda: "%s: the tests %r run, expected %r" % (what, runs, want), replay)
    path = b"/none " if request is None else b"/q%d " % request
    ctx.check(len(conns) == len(want) and all(path in bytes(c.raw) for c in conns), lambda: "%s: requests %r, expected %d to %r" % (what, [bytes(c.raw)[:40] for c in conns], len(want), path), replay)
    if name is not None and name not in final: ctx.check(name in r.text.split("@")[-1] and "not found" in r.text.lower(), lambda: "%s: an unknown name is reported as %r" % (what, r.text[-300:]), replay)
    ctx.count("files", len(files))
    ctx.count("links", linked)
    ctx.count("links_back", ups)
    ctx.count("alike", same)
    ctx.count("tests_run", len(runs))
    ctx.peak("files", len(files))
    ctx.peak("depth", max([len(p) for p in spec] or [0]))
    ctx.count("definitions_replaced", sum(t is not None and t.count("\ntest ") for t in texts.values()) - len(final))
    ctx.seen((tuple(sorted(spec)), how, name, tuple(texts.values())), what[:200], len(files) > 1)


def spec_of(*names):
    out = {}
    for n in names:
        p = tuple(n.split("/"))
        for i in range(1, len(p)): out[p[:i]] = "dir"
        out[p] = "fan" if is_fan(p[-1]) else "other"
    return out


def directed(ctx, env, w, nw):
    import random
    specs = [spec_of("a.fan"), spec_of("b.fan", "a.fan"), spec_of("a-b.fan", "a.fan", "a/b.fan"), spec_of("a.fan", "a.b.fan", "a/a.fan", "A.fan"), spec_of("z.fan", "a/z.fan", "a/a/z.fan", "b/a.fan"), spec_of("1.fan", "10.fan", "2.fan"), spec_of("x.fan/a.fan", "x.fan/b.txt", "y.fan"), spec_of("a.txt", "b.FAN"),
             spec_of("/".join(["d"] * 40) + "/deep.fan", "top.fan"), spec_of(*["f%d.fan" % i for i in range(300)]), spec_of(*["d%d/f%d.fan" % (i % 7, i) for i in range(200)]), {}, spec_of(".fan", "a.fan", "..fan", ".a.fan"), {("empty",): "dir", ("a.fan",): "fan"}]
    n = 0
    for s in specs:
        for how in ("all", "named", "unknown"):
            for plain in (True, False):
                n += 1
                if n % nw == w: play(ctx, random.Random(n), env, s, how, plain)
    if w == 0: single(ctx, env)
    if w == 1 % nw: elsewhere(ctx, env)


def elsewhere(ctx, env):
    """A run of a given path whose current directory has been removed, or is the root of everything."""
    with util.Scratch() as d:
        util.write(d + "/s/b/a.fan", "println(\"@Fa@\")\n")
        util.write(d + "/s/b.fan", "println(\"@Fb@\")\ntest t { println(\"@T@\") }\n")
        for gone in (True, False):
            for name in (["t"], []):
                os.makedirs(d + "/gone", exist_ok=True)
                args = [cli.build.TARGET + "/cli/debug/basjoofan", "test"] + name + ["-p", d + "/s"]
                r = cli.run(["-c", "cd %s && %s exec \"$@\"" % (d + "/gone", "rmdir %s/gone &&" % d if gone else ""), "sh"] + args, binary="/bin/sh")
                said = "%s with %s current directory" % (args[1:], "a removed" if gone else "another")
                replay = {"out": r.text[-2000:], "err": r.err[-2000:].decode("utf-8", "replace")}
                if not cli.over(ctx, r): return
                ctx.check(r.code == 0 and r.text == "@Fa@\n@Fb@\n@T@\n", lambda: "%s: exit %r, printed %r, %r" % (said, r.code, r.text[:300], r.err[:300]), replay)
                ctx.seen(said, said)


def single(ctx, env):
    """A path to one file; the later of two definitions of a name in one file; an error at the top runs no test."""
    with util.Scratch() as d:
        util.write(d + "/a.fan", 'println("@A@")\ntest t { println("@first@") }\ntest t { println("@second@") }\n')
        util.write(d + "/b.fan", 'println("@B@")\n')
        util.write(d + "/c.txt", 'println("@C@")\n')
        for args, want in ((["-p", d + "/a.fan"], ["A", "second"]), (["-p", d + "/b.fan"], ["B"]), (["-p", d + "/c.txt"], []), (["t", "-p", d], ["A", "B", "second"])):
            r = cli.run(["test"] + args)
            got = re.findall("@([^@\n]*)@", r.text)
            ctx.check(got == want, lambda: "test %s prints %r, expected %r" % (args, got, want), {"args": args, "out": r.text})
            ctx.seen(("single", tuple(args[-1:])), repr(args))


def case(ctx, rng, env):
    play(ctx, rng, env, tree(rng, rng.choice([1, 2, 3, 5]), rng.choice([1, 3, 6, 10, 20])), rng.choice(["all", "named", "named", "unknown"]), rng.random() < .1)
