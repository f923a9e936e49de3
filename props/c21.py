"""C21: threads and tests are isolated from one another."""
import collections, json, re, threading, time
from mon import build as B, cli, dictionary, gen, httpd, model, probe, util, wire

RULE = ("the real binary runs threads and tests that bind the same names to values only their own server answers give them, while the server makes them overlap (answers are held until all are waiting, and come in random order); every value read, in scripts, "
        "urls, headers and bodies, must follow from the top-level code and the thread's own history. In library sessions, calls whose assertions bind names are made among random bindings, all of which are read again afterwards. Non-trivial: a distinct run or session.")
FLOOR = 300
BUDGET = {"quick": 20, "thorough": 240}
FIELDS = ["version", "status", "reason", "headers", "body", "json"]


def build():
    B.cli()
    B.probe()


class Env: pass


def setup(ctx):
    e = Env()
    e.p = probe.Probe()
    e.together, e.cond, e.waiting, e.round = 1, threading.Condition(), 0, 0
    e.s = httpd.Server(lambda conn: answer(e, conn), backlog=2048)
    return e


def teardown(e):
    e.p.stop()
    e.s.close()


def answer(e, conn):
    conn.request()
    # hold the answer until enough others are waiting too
    with e.cond:
        e.waiting += 1
        if e.waiting >= e.together:
            e.waiting = 0
            e.round += 1
            e.cond.notify_all()
        else:
            r, end = e.round, time.monotonic() + .04
            while e.round == r:
                left = end - time.monotonic()
                if left <= 0:
                    e.waiting, e.round = 0, e.round + 1
                    e.cond.notify_all()
                    break
                e.cond.wait(left)
    conn.send(wire.response(headers=[("Leak", "header%d" % conn.index)], reason="Reason", body=json.dumps({"id": conn.index, "leak": "from%d" % conn.index})))
    conn.fin()
    conn.drain()


def run(ctx, env, source, args):
    with util.Scratch() as d:
        util.write(d + "/s/a.fan", source)
        r = cli.run(["test"] + args + ["-p", d + "/s"], timeout=120)
        conns = env.s.take()
    if not cli.over(ctx, r): return None, None
    return r, conns


OUTER = 'let version = "V"; let status = "S"; let reason = "R"; let headers = "H"; let body = "B"; let json = "J"; let leak = "L"; let deep = ["D"]\n'
REQUEST = "request %s `POST http://127.0.0.1:%d/%s/{last}/{status}\nX-Last: {last}\nX-Json: {json}\n\n@FILL@{last},{body},{leak}`[(let leak = json.leak) == json.leak, (let status = 1) == 1, (let fresh = json.id) >= 0, (let deep = append([1], leak)) != deep]\n"
SHOW = 'println("@{a} {b} {c} {d} {e} {f} {g} {h}@", version, status, reason, headers, body, json, leak, deep)'
OUTER_SHOWN = '@V S R H B J L [String("D")]@'


def threads(ctx, env, t, n, fail, fill=0):
    """Each thread's iterations form a chain: what one binds, its next one sees."""
    env.together = t
    filler = "f" * (fill or 0)
    source = OUTER + 'let last = "top"\n' + REQUEST.replace("@FILL@", filler) % ("q", env.s.port, "q")
    source += 'test t { let before = last; let r = q(); %s; let last = r.json.id; println("#{a} {b} {c}#", before, last, status); %s }\n' % (SHOW, "if (last == %d) { fresh }" % fail if fail is not None else "")
    args = ["t", "-t", str(t), "-n", str(n)]
    r, conns = run(ctx, env, source, args)
    if r is None: return
    what = "test %s" % " ".join(args)
    replay = {"source": source, "args": args, "out": r.text[-20000:], "err": r.err[-1000:].decode("utf-8", "replace")}
    ctx.check(r.code == 0 and b"panicked" not in r.err, lambda: "%s: exit %r %r" % (what, r.code, r.err[:300]), replay)
    pairs = re.findall(r"#(\S+) (\S+) (\S+)#", r.text)
    ctx.check(len(pairs) == len(conns) == r.text.count(OUTER_SHOWN) == r.text.count("@") // 2, lambda: "%s: %d iterations, %d requests, %d times the outer bindings; %r" % (what, len(pairs), len(conns), r.text.count(OUTER_SHOWN), [x for x in re.findall("@.*@", r.text) if x != OUTER_SHOWN][:3]), replay)
    nxt = {}
    for a, b, _ in pairs:
        if a != "top":
            ctx.check(a not in nxt, lambda: "%s: the value %s of one iteration is seen by two" % (what, a), replay)
            nxt[a] = b
    starts = [b for a, b, _ in pairs if a == "top"]
    chains = []
    for b in starts:
        c = 1
        while b in nxt: b, c = nxt[b], c + 1
        chains.append(c)
    if fail is None: ctx.check(sorted(chains) == sorted([n // t] * (t - n % t) + [n // t + 1] * (n % t))[max(0, t - n):] and sum(chains) == len(pairs), lambda: "%s: the values form chains of %r iterations" % (what, sorted(chains)), replay)
    else: ctx.check(sum(chains) == len(pairs) and len(chains) == min(t, n), lambda: "%s: the values form chains of %r iterations" % (what, sorted(chains)), replay)
    # what went out: the thread's own values
    before = {b: a for a, b, _ in pairs}
    for c in conns:
        a = before.get(str(c.index))
        raw = bytes(c.raw).decode()
        want = ("POST /q/%s/S HTTP" % a, "X-Last: %s\r\nX-Json: J\r\n" % a, "\r\n\r\n%s%s,B,L" % (filler, a))
        ctx.check(a is not None and raw.startswith(want[0]) and want[1] in raw and raw.endswith(want[2]), lambda: "%s: request %d is %r, expected %r" % (what, c.index, raw[:300] + raw[-200:], want), replay)
    ctx.count("iterations", len(pairs))
    ctx.count("rounds_together", env.round)
    env.round = 0
    ctx.peak("threads", t)
    ctx.seen(("threads", t, n, fail, tuple(pairs)), what)


def tests(ctx, env, names, k, fill=0):
    """All tests of a file at once: they bind the same names, each to its own values."""
    env.together = len(names)
    source = OUTER + 'let last = "top"; let mine = "none"\n' + "".join(REQUEST.replace("@FILL@", "g" * fill) % (x, env.s.port, x) for x in ("q",))
    for n in names:
        step = 'let r = q(); %s; let last = r.json.id; println("#%s {a} {b}#", mine, last);' % (SHOW, n)
        source += 'test %s { println("#%s {a} {b}#", mine, last); let mine = "%s"; %s println("unbound"); only_%s; }\n' % (n, n, n, step * k, names[(names.index(n) + 1) % len(names)])
        source = source.replace('test %s {' % n, 'test %s { let only_%s = 1;' % (n, n))
    r, conns = run(ctx, env, source, [])
    if r is None: return
    what = "%d tests of %d requests" % (len(names), k)
    replay = {"source": source, "out": r.text[-20000:], "err": r.err[-1000:].decode("utf-8", "replace")}
    got = collections.defaultdict(list)
    for n, m, l in re.findall(r"#(\S+) (\S+) (\S+)#", r.text): got[n].append((m, l))
    sent = collections.defaultdict(list)
    ids = {}
    for n in names:
        g = got.get(n, [])
        if not ctx.check(len(g) == k + 1 and g[0] == ("none", "top") and all(m == n for m, _ in g[1:]), lambda: "%s: test %s sees (mine, last) %r" % (what, n, g), replay): return
        for i, (_, l) in enumerate(g[1:]):
            ctx.check(l not in ids, lambda: "%s: %s and %s both see the answer %s" % (what, n, ids.get(l), l), replay)
            ids[l] = n
            sent[l] = g[i][1]
    ctx.check(r.text.count(OUTER_SHOWN) == k * len(names) == len(conns), lambda: "%s: outer bindings shown %d times, %d requests: %r" % (what, r.text.count(OUTER_SHOWN), len(conns), [x for x in re.findall("@.*@", r.text) if x != OUTER_SHOWN][:3]), replay)
    for c in conns:
        raw = bytes(c.raw).decode()
        a = sent.get(str(c.index))
        ctx.check(a is not None and raw.startswith("POST /q/%s/S HTTP" % a) and raw.endswith("\r\n\r\n%s%s,B,L" % ("g" * fill, a)), lambda: "%s: request %d is %r, expected %r" % (what, c.index, raw[:300] + raw[-200:], a), replay)
    # another test's variable is not bound (its own are): that error comes last, once per test
    if len(names) > 1:
        errors = [l for l in r.text.split("\n") if re.search(r"\bonly_", l) and not l.startswith(("=== ", "--- "))]
        ctx.check(len(errors) == len(names), lambda: "%s: %d of the tests could not read a variable of another: %r" % (what, len(errors), errors[:5]), replay)
    ctx.count("tests", len(names))
    ctx.seen(("tests", len(names), k, tuple(sorted(ids.items()))), what)


def session(ctx, rng, env):
    """A call changes no binding of its caller, whatever its assertions bind."""
    env.together = 1
    extra = [n for n in {gen.name(rng) for _ in range(3)} | {rng.choice([w for w in dictionary.words() if w not in gen.KEYWORDS and w not in gen.NATIVES]) for _ in range(3)} | {"n" * rng.choice([16, 32, 64, 100])} if n not in FIELDS and n != "call_it"]
    names = rng.sample(FIELDS + sorted({"leak", "x", "fresh", "id", "r", "get"} | set(extra)), rng.randint(1, 10))
    values = {n: gen.value(rng, 1) for n in names}
    values = {n: v for n, v in values.items() if '"' not in repr(v).replace("'", "") and "`" not in repr(v)}
    lets = [n for n in FIELDS + sorted({"leak", "x", "fresh", "id", "r", "y"} | set(extra)) if rng.random() < .5]
    asserts = ["(let %s = %s) == 1" % (n, rng.choice(["1", "json", '"lost"', "headers", "[status]", "json.leak"])) for n in lets]
    if rng.random() < .3: asserts += ["%s + 1 == let other = 2" % rng.choice(FIELDS)]
    line = "request call_it `GET http://127.0.0.1:%d/`%s" % (env.s.port if rng.random() < .9 else 1, " [%s]" % ", ".join(asserts) if asserts else "")
    free = [n for n in FIELDS + sorted({"leak", "x", "fresh", "id", "r", "y", "other"} | set(extra)) if n not in values]
    lines = [line] + [model.program([("let", n, gen.lit(v))]) for n, v in values.items()]
    k = len(lines)
    lines += rng.choice([["call_it()"], ["call_it()", "call_it()"], ["[call_it(), call_it()]"], ["let keep = call_it()"]])
    m = len(lines)
    reads = list(values) + free
    lines += reads
    steps, why = util.session(env.p, lines, idle=60)
    env.s.take()
    replay = {"lines": lines, "steps": repr(steps)[:4000]}
    if not ctx.check(steps is not None, lambda: "%r: %s" % (lines, why), replay): return
    ctx.check(all("ok" in s for s in steps[k:m]), lambda: "%r: the calls gave %r" % (lines, steps[k:m]), replay)
    for n, s in zip(reads, steps[m:]):
        if n in values: ctx.check("ok" in s and model.same(model.read_debug(s["ok"]), values[n]), lambda: "%r: afterwards %s is %r, it was bound to %r" % (lines[:m], n, s, values[n]), replay)
        else: ctx.check("err" in s, lambda: "%r: afterwards %s is %r, it was never bound" % (lines[:m], n, s), replay)
    ctx.count("sessions")
    ctx.seen(tuple(lines[:m]), lines[m - 1])


def directed(ctx, env, w, nw):
    jobs = []
    for t, n in ((1, 5), (2, 10), (4, 22), (8, 40), (16, 40), (32, 64), (3, 2), (50, 50)):
        for fail in (None, n // 2): jobs.append(lambda t=t, n=n, fail=fail: threads(ctx, env, t, n, fail))
    for n, k in ((1, 2), (2, 1), (2, 5), (5, 3), (12, 3), (30, 2)): jobs.append(lambda n=n, k=k: tests(ctx, env, ["t%d" % i for i in range(n)], k))
    for i, f in enumerate(dictionary.sizes(70000 if ctx.quick else 1 << 21)):
        if f >= 100: jobs.append(lambda f=f, i=i: threads(ctx, env, 4, 12, None, f) if i % 3 else tests(ctx, env, ["t%d" % i for i in range(4)], 2, f))
    for i, j in enumerate(jobs):
        if i % nw == w: j()


def case(ctx, rng, env):
    r = rng.random()
    if r < .3:
        t = rng.choice([2, 3, 4, 8, 12])
        n = rng.randint(t, 4 * t)
        threads(ctx, env, t, n, rng.choice([None, None, rng.randrange(n)]), rng.choice([0, 0, 0, 50, 1000, 5000, 66000]))
    elif r < .5: tests(ctx, env, rng.sample(["t%d" % i for i in range(40)], rng.randint(2, 10)), rng.randint(1, 4))
    else:
        for _ in range(5): session(ctx, rng, env)
