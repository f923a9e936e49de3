"""C19: a run performs exactly the requested iterations."""
import collections, glob, os, re
from mon import avro, build as B, cli, dictionary, httpd, util, wire

RULE = ("the real binary runs tests with T threads and N iterations; what every iteration prints, asks of the server and leaves in the record files is counted per thread: totals, shares, numbering, and the shares of threads whose iterations end in an error "
        "(in a chosen iteration of every thread, or in one iteration chosen by the server); runs without a name are counted per test. Non-trivial: a distinct (kind of test, T, N).")
FLOOR = 150
BUDGET = {"quick": 20, "thorough": 240}
WORKERS = 8


def build(): B.cli()


class Env: pass


def setup(ctx):
    e = Env()
    e.stop = None

    def answer(conn):
        conn.request()
        conn.send(wire.response(body=b'{"id": %d, "stop": %s}' % (conn.index, b"true" if conn.index == e.stop else b"false")))
        conn.fin()
        conn.drain()
    e.s = httpd.Server(answer, backlog=2048)
    return e


def teardown(e): e.s.close()


def shares(n, t): return sorted([n // t] * (t - n % t) + [n // t + 1] * (n % t))


def run(ctx, env, source, args, name="t"):
    """(Run, connections, records per thread file) or None"""
    with util.Scratch() as d:
        util.write(d + "/s/a.fan", source)
        os.mkdir(d + "/r")
        r = cli.run(["test"] + ([name] if name else []) + ["-p", d + "/s", "-r", d + "/r"] + args, timeout=150)
        conns = env.s.take()
        if not cli.over(ctx, r): return None
        files = {}
        for f in sorted(glob.glob(d + "/r/*")): files[os.path.basename(f)] = open(f, "rb").read()
        return r, conns, files


def decoded(ctx, files, replay):
    out = {}
    for f, data in files.items():
        try: out[f] = avro.decode(data)
        except avro.Bad as e: ctx.violation("record file %s: %s" % (f, e), replay)
    return out


def counted(ctx, env, t, n, k, order):
    """Every iteration prints its counter, then makes k requests."""
    source = ("let i = 0\nrequest q `GET http://127.0.0.1:%d/{i}`\ntest other { println(\"OTHER\") }\n"
              "test t { %s %s let i = i + 1 }\n") % (env.s.port, 'println("@{a}@", i);', "q();" * k)
    args = [["-t", str(t), "-n", str(n)], ["-n", str(n), "-t", str(t)], ["--threads", str(t), "--number=%d" % n]][order % 3]
    if t == 1 and order % 2: args = ["-n", str(n)]
    if n == 1 and order % 2: args = ["-t", str(t)]
    got = run(ctx, env, source, args)
    if got is None: return
    r, conns, files = got
    replay = {"source": source, "args": args, "out": r.text[-5000:], "err": r.err[-1000:].decode("utf-8", "replace")}
    what = "test t %s" % " ".join(args)
    seen = collections.Counter(int(x) for x in re.findall("@([0-9]+)@", r.text))
    # iteration i is performed by each thread whose share is more than i
    want = {i: sum(s > i for s in shares(n, t)) for i in range(-(-n // t))}
    ctx.check(seen == {a: b for a, b in want.items() if b}, lambda: "%s: iterations (number: how many threads) %r, expected %r" % (what, dict(seen), want), replay)
    ctx.check(r.code == 0 and "OTHER" not in r.text, lambda: "%s: exit %r, %r" % (what, r.code, r.err[:300]), replay)
    ctx.check(len(conns) == k * n, lambda: "%s: the server got %d requests, expected %d" % (what, len(conns), k * n), replay)
    ctx.check(r.text.count("--- PASS  q (") == k * n and r.text.count("=== TEST  ") == k * n, lambda: "%s: %d requests reported, expected %d" % (what, r.text.count("=== TEST  "), k * n), replay)
    files = decoded(ctx, files, replay)
    ctx.check(sorted(files) == ["%06d" % i for i in range(t)], lambda: "%s: record files %r" % (what, sorted(files)[:20]), replay)
    if k:
        ctx.check(sorted(len(x) for x in files.values()) == [k * s for s in shares(n, t)], lambda: "%s: %r records per thread, expected %r" % (what, sorted(len(x) for x in files.values()), shares(n, t)), replay)
        for f, recs in files.items():
            numbering(ctx, what, f, recs, k, "t", replay)
            ctx.check([x["request_url"].rsplit("/", 1)[1] for x in recs] == [str(x["number"]) for x in recs], lambda: "%s: thread %s: iteration numbers %r for urls %r" % (what, f, [x["number"] for x in recs][:50], [x["request_url"] for x in recs][:50]), replay)
    ctx.count("iterations", n)
    ctx.count("requests", len(conns))
    ctx.peak("threads", t)
    ctx.seen(("count", t, n, k), what)


def numbering(ctx, what, f, recs, k, name, replay):
    want = [(name, int(f), i // k, i % k) for i in range(len(recs))]
    got = [(x["name"], x["thread"], x["number"], x["order"]) for x in recs]
    ctx.check(got == want, lambda: "%s: thread file %s has (test, thread, number, order) %r, expected %r" % (what, f, got[:40], want[:40]), replay)


def idle(ctx, env, t, n):
    """Many more threads than iterations."""
    source = "request q `GET http://127.0.0.1:%d/{i}`\ntest t { q(); println(\"@done@\") }\n" % env.s.port
    with util.Scratch() as d:
        util.write(d + "/a.fan", source)
        r = cli.run(["test", "t", "-t", str(t), "-n", str(n), "-p", d], timeout=150)
        conns = env.s.take()
    what = "test t -t %d -n %d" % (t, n)
    if not cli.over(ctx, r): return
    ctx.check(r.code == 0 and r.text.count("@done@") == r.text.count("--- PASS  q (") == len(conns) == n, lambda: "%s: exit %r, %d iterations, %d requests, %r" % (what, r.code, r.text.count("@done@"), len(conns), r.err[:300]), {"source": source, "out": r.text[-3000:], "err": r.err[-2000:].decode("utf-8", "replace")})
    ctx.count("iterations", n)
    ctx.peak("idle_threads", t - n)
    ctx.seen(("idle", t, n), what)


def crowd(ctx, t, n):
    """Thousands of threads, each with something to do."""
    source = "let i = 0\ntest t { println(\"@{a}@\", i) let i = i + 1 }\n"
    with util.Scratch() as d:
        util.write(d + "/a.fan", source)
        r = cli.run(["test", "t", "-t", str(t), "-n", str(n), "-p", d], timeout=150)
    what = "test t -t %d -n %d" % (t, n)
    if not cli.over(ctx, r): return
    if b"failed to spawn thread" in r.err:  # more threads than there may be here
        ctx.inconclusive += 1
        return
    seen = collections.Counter(int(x) for x in re.findall("@([0-9]+)@", r.text))
    want = {i: sum(s > i for s in shares(n, t)) for i in range(-(-n // t))}
    ctx.check(r.code == 0 and seen == want, lambda: "%s: exit %r, iterations (number: how many threads) %r, expected %r, %r" % (what, r.code, dict(seen), want, r.err[:300]), {"source": source, "out": r.text[-3000:], "err": r.err[-2000:].decode("utf-8", "replace")})
    ctx.count("iterations", n)
    ctx.peak("threads", t)
    ctx.seen(("crowd", t, n), what)


def own_error(ctx, env, t, n, at, how):
    """Every thread's iteration number `at` ends in an error, after its request."""
    source = "let i = 0\nrequest q `GET http://127.0.0.1:%d/{i}`\ntest t { println(\"@{a}@\", i); q(); if (i == %d) { %s } let i = i + 1; println(\"end\") }\n" % (env.s.port, at, how)
    args = ["-t", str(t), "-n", str(n)]
    got = run(ctx, env, source, args)
    if got is None: return
    r, conns, files = got
    what = "test t %s whose iteration %d fails by %s" % (" ".join(args), at, how)
    replay = {"source": source, "args": args, "out": r.text[-5000:], "err": r.err[-1000:].decode("utf-8", "replace")}
    want = sorted(min(s, at + 1) for s in shares(n, t))
    files = decoded(ctx, files, replay)
    ctx.check(sorted(map(len, files.values())) == want, lambda: "%s: %r iterations per thread, expected %r" % (what, sorted(map(len, files.values())), want), replay)
    for f, recs in files.items(): numbering(ctx, what, f, recs, 1, "t", replay)
    ctx.check(len(conns) == sum(want) == r.text.count("@") // 2, lambda: "%s: %d requests and %d starts, expected %d" % (what, len(conns), r.text.count("@") // 2, sum(want)), replay)
    ctx.check(r.text.count("end\n") == sum(min(s, at) for s in shares(n, t)), lambda: "%s: %d iterations reached their end" % (what, r.text.count("end\n")), replay)
    ctx.check(r.code == 0 and b"panicked" not in r.err, lambda: "%s: exit %r, %r" % (what, r.code, r.err[:300]), replay)
    ctx.count("failing_iterations", sum(s > at for s in shares(n, t)))
    ctx.seen(("own", t, n, at, how), what)


def one_error(ctx, env, t, n, stop):
    """One iteration, the one that gets the server's answer number `stop`, ends in an error; the others are unaffected."""
    source = "request q `GET http://127.0.0.1:%d/`\ntest t { let r = q(); if (r.json.stop) { let x = 1 / 0 } println(\"end\") }\n" % env.s.port
    args = ["-t", str(t), "-n", str(n)]
    env.stop = stop
    got = run(ctx, env, source, args)
    env.stop = None
    if got is None: return
    r, conns, files = got
    what = "test t %s with an error in the iteration that gets answer %d" % (" ".join(args), stop)
    replay = {"source": source, "args": args, "out": r.text[-5000:], "err": r.err[-1000:].decode("utf-8", "replace")}
    files = decoded(ctx, files, replay)
    failed = [(f, x["number"]) for f, recs in files.items() for x in recs if '"stop": true' in x["response_body"]]
    if not ctx.check(len(failed) == 1, lambda: "%s: the failing iteration is recorded %d times" % (what, len(failed)), replay): return
    f0, at = failed[0]
    others = sorted(len(recs) for f, recs in files.items() if f != f0)
    # its share is one of the two possible ones; the others have the rest
    full = shares(n, t)
    fits = any(others == sorted(full[:i] + full[i + 1:]) and full[i] > at for i in range(t))
    ctx.check(fits and len(files[f0]) == at + 1, lambda: "%s: thread %s failed in iteration %d and did %d, the others did %r; shares %r" % (what, f0, at, len(files[f0]), others, full), replay)
    for f, recs in files.items(): numbering(ctx, what, f, recs, 1, "t", replay)
    ctx.check(len(conns) == at + 1 + sum(others) and r.text.count("end\n") == at + sum(others), lambda: "%s: %d requests, %d ends" % (what, len(conns), r.text.count("end\n")), replay)
    ctx.check(r.code == 0, lambda: "%s: exit %r" % (what, r.code), replay)
    ctx.count("failing_iterations")
    ctx.seen(("one", t, n, stop), what)


def unnamed(ctx, env, names, failing, extra):
    source = "request q `GET http://127.0.0.1:%d/x`\n" % env.s.port
    for i, n in enumerate(names): source += "test %s { println(\"@%s@\"); q(); %s println(\"end\") }\n" % (n, n, "length(1);" if n in failing else "")
    got = run(ctx, env, source, extra, None)
    if got is None: return
    r, conns, files = got
    what = "test (all of %d) %s" % (len(names), extra)
    replay = {"source": source, "args": extra, "out": r.text[-5000:], "err": r.err[-1000:].decode("utf-8", "replace")}
    seen = collections.Counter(re.findall("@([A-Za-z0-9_]+)@", r.text))
    ctx.check(seen == {n: 1 for n in names}, lambda: "%s: tests run %r, expected each of %r once" % (what, seen, names), replay)
    ctx.check(len(conns) == len(names) and r.text.count("end\n") == len(names) - len(failing) and r.code == 0, lambda: "%s: %d requests, %d ends, exit %r" % (what, len(conns), r.text.count("end\n"), r.code), replay)
    files = decoded(ctx, files, replay)
    got = sorted((x["name"], x["number"], x["order"]) for recs in files.values() for x in recs)
    ctx.check(got == sorted((n, 0, 0) for n in names) and len(files) == len(names), lambda: "%s: recorded %r" % (what, got), replay)
    for f, recs in files.items(): ctx.check([x["thread"] for x in recs] == [int(f)], lambda: "%s: file %s has thread numbers %r" % (what, f, [x["thread"] for x in recs]), replay)
    ctx.count("tests", len(names))
    ctx.seen(("all", len(names), len(failing), tuple(extra)), what)


ERRORS = ["let x = 1 / 0", "nothing()", "missing", "format(1)", "let x = 9223372036854775807 + 1"]


def directed(ctx, env, w, nw):
    jobs = []
    for t in list(range(1, 9)) + [16]:
        for n in sorted({0, 1, t - 1, t, t + 1, 2 * t - 1, 2 * t, 2 * t + 1, 13}): jobs.append(lambda t=t, n=n: counted(ctx, env, t, n, 1, t + n))
    for t, n in ((1, 2000), (100, 250), (64, 63), (200, 1), (3, 1000), (7, 0), (97, 1000)): jobs.insert(0, lambda t=t, n=n: counted(ctx, env, t, n, 0, t))
    jobs.insert(0, lambda: counted(ctx, env, 60, 301, 1, 0))
    for t, n, at in ((1, 5, 2), (3, 10, 1), (4, 10, 2), (2, 3, 1), (5, 5, 0), (3, 3, 1), (8, 64, 3)):
        for how in ERRORS[:2]: jobs.append(lambda t=t, n=n, at=at, how=how: own_error(ctx, env, t, n, at, how))
    for t, n in ((1, 4), (2, 7), (4, 17), (8, 40)):
        for stop in (0, n // 2, n - 1): jobs.append(lambda t=t, n=n, stop=stop: one_error(ctx, env, t, n, stop))
    # long runs: counts at which something could overflow, wrap or be cut
    import random
    long = [n for n in dictionary.sizes(70000) if n > 5000]
    long = set(random.Random(ctx.seed).sample(long, min(len(long), 5))) if ctx.quick else set(long)
    for i, n in enumerate(dictionary.sizes(70000)):
        if n > 60 and (n <= 5000 or n in long): jobs.append(lambda i=i, n=n: counted(ctx, env, (1, 1, 2, 3)[i % 4], n, 1 if n <= (700 if ctx.quick else 9000) else 0, i))
    for t, n in ((1, 65537), (2, 131075), (3, 400003)): jobs.insert(0, lambda t=t, n=n: counted(ctx, env, t, n, 0, t))
    for t, n in ((40000, 1), (100000, 3), (70000, 0), (33000, 20)): jobs.insert(0, lambda t=t, n=n: idle(ctx, env, t, n))
    for t, n in ((257, 1030), (1025, 2049), (4500, 9001), (8200, 8201), (9000, 27007)): jobs.insert(0, lambda t=t, n=n: crowd(ctx, t, n))
    names = ["t%d" % i for i in range(40)]
    for k in (0, 1, 2, 5, 40):
        for extra in ([], ["-n", "3"], ["-t", "3", "-s"]): jobs.append(lambda k=k, extra=extra: unnamed(ctx, env, names[:k], names[:k][::3], extra))
    for i, j in enumerate(jobs):
        if i % nw == w: j()


def case(ctx, rng, env):
    r = rng.random()
    t = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 20, 33])
    n = rng.choice([rng.randint(0, 3 * t), rng.randint(0, 60), t * rng.randint(0, 4) + rng.choice([0, 1, t - 1])])
    if r < .5: counted(ctx, env, t, n, rng.choice([0, 1, 1, 2]) if n < 60 else 1, rng.randint(0, 5))
    elif r < .7: own_error(ctx, env, t, n, rng.randint(0, 4), rng.choice(ERRORS))
    elif r < .88: one_error(ctx, env, t, max(n, 1), rng.randrange(max(n, 1)))
    else:
        names = rng.sample(["t%d" % i for i in range(30)] + ["a", "Zed", "_x", "same", "T1"], rng.randint(1, 12))
        unnamed(ctx, env, names, rng.sample(names, rng.randint(0, len(names))), rng.choice([[], ["-t", "2"], ["-s"], ["-n", "7"]]))
