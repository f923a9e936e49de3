"""C20: every request is reported exactly once, everywhere, intact."""
import collections, glob, json, os, re, socket, subprocess, threading, time
from mon import avro, build as B, cli, dictionary, gen, httpd, report, util, wire

RULE = ("the real binary runs tests of many threads against a server that gives every answer its own id, verdict, size and delay, with stdout going to a file or to a slowly read pipe; the ids in the report blocks, the record files and the statistics "
        "are compared with the server's log, and blocks, records and times with one another. Non-trivial: a distinct run with at least two requests.")
FLOOR = 60
BUDGET = {"quick": 25, "thorough": 300}
LOST = ["json.id >= 0 => null >= 0 => false", "json.ok == true => null == true => false", 'body != "x" =>  != x => true']  # nothing of a cut answer is seen
ASSERT = re.compile(r"(json\.id >= 0 => null >= 0 => false|json\.ok == true => null == true => false|json\.id >= 0 => (\d+) >= 0 => true|json\.ok == true => (true|false) == true => \2|json\.ok == true => (?:true == true => true|false == true => false)|body != \"x\" => .* != x => true)$")


SPEEDS = [101, 1009, 10007, 99991, 10000019]  # the clocks of the code run so much faster: exchanges that last seconds, minutes or days


def build():
    B.cli()
    B.preload("fast")


class Env: pass


class Plan:
    """What the server does: kinds of answers by id."""
    failing, broken, big, delay = 0, 0, 0, 0


def setup(ctx):
    e = Env()
    e.plan = Plan()
    e.s = httpd.Server(lambda conn: answer(e, conn), backlog=4096)
    e.closed = socket.socket()  # bound, never listening
    e.closed.bind(("127.0.0.1", 0))
    return e


def teardown(e):
    e.s.close()
    e.closed.close()


def answer(e, conn):
    import random
    rng = random.Random("%d.%d" % (e.s.port, conn.index))
    p = e.plan
    conn.request()
    if getattr(e, "gate", None): e.gate(conn)
    conn.ok = rng.random() >= p.failing
    conn.broken = rng.random() < p.broken
    pad = "p" * rng.choice([0, 10, 3000, 70000]) if rng.random() < p.big else ""
    conn.body = json.dumps({"id": conn.index, "ok": conn.ok, "pad": pad})
    if p.delay: time.sleep(rng.random() * p.delay)
    # a broken answer announces more than it has
    data = wire.response(headers=[("Content-Length", str(len(conn.body) + (1 if conn.broken else 0))), ("X-Id", str(conn.index))], body=conn.body)
    if rng.random() < .2:
        k = rng.randrange(len(data))
        conn.send(data[:k])
        time.sleep(.001)
        conn.send(data[k:])
    else: conn.send(data)
    conn.fin()
    conn.drain()


def slow_pipe(args, timeout, seed, env=None):
    """Runs with stdout going to a pipe that is read late and in small pieces."""
    import random
    rng = random.Random(seed)
    r, w = os.pipe()
    got = []

    def pump():
        while True:
            data = os.read(r, rng.choice([1, 100, 4096, 65536]))
            if not data: return
            got.append(data)
            if rng.random() < .02: time.sleep(rng.random() * .004)
    t = threading.Thread(target=pump, daemon=True)
    t.start()
    p = cli.spawn(args, stdout=w, env=env)
    os.close(w)
    run = cli.finish(p, timeout, 25)
    t.join(30)
    os.close(r)
    run.out = b"".join(got)
    run.text = run.out.decode("utf-8", "replace")
    return run


def judge(ctx, what, r, conns, files, stat, replay, names, pod=None):
    """The three reports of a run against the server's log."""
    if not ctx.check(r.code == 0 and b"panicked" not in r.err, lambda: "%s: exit %r, %r" % (what, r.code, r.err[:500]), replay): return
    try: blocks, stats, other = report.read(r.text, ASSERT)
    except report.Broken as e: return ctx.violation("%s: the output is not whole: %s" % (what, e), replay)
    answered = {c.index: c for c in conns if not c.broken}
    cut = collections.Counter(wire_name(c) for c in conns if c.broken)
    by_id, lost = {}, collections.defaultdict(list)
    for b in blocks:
        if b.lines == LOST:
            lost[b.name].append(b.total)
            ctx.check(b.verdict == "FAIL", lambda: "%s: a cut answer to %s is reported as PASS" % (what, b.name), replay)
            continue
        m = re.match(r"json\.id >= 0 => (\d+) ", b.lines[0]) if b.lines else None
        if not ctx.check(m and len(b.lines) == 3, lambda: "%s: the block of %s has the lines %r" % (what, b.name, [x[:100] for x in b.lines]), replay): return
        k = int(m[1])
        ctx.check(k not in by_id, lambda: "%s: answer %d is reported twice" % (what, k), replay)
        by_id[k] = b
    ctx.check(by_id.keys() == answered.keys(), lambda: "%s: %d answers, %d reported; missing %r, extra %r" % (what, len(answered), len(by_id), sorted(answered.keys() - by_id.keys())[:10], sorted(by_id.keys() - answered.keys())[:10]), replay)
    ctx.check({n: len(v) for n, v in lost.items()} == dict(cut), lambda: "%s: %r answers were cut, %r are reported" % (what, dict(cut), {n: len(v) for n, v in lost.items()}), replay)
    for k, b in by_id.items():
        c = answered[k]
        name = wire_name(c)
        verdict = "PASS" if c.ok else "FAIL"
        ctx.check((b.name, b.verdict) == (name, verdict), lambda: "%s: answer %d to %s (ok %s) is reported as %s %s" % (what, k, name, c.ok, b.verdict, b.name), replay)
        ctx.check(b.lines[1] == "json.ok == true => %s == true => %s" % (str(c.ok).lower(), str(c.ok).lower()) and b.lines[2] == 'body != "x" => %s != x => true' % c.body, lambda: "%s: answer %d %r has the lines %r" % (what, k, c.body[:100], [x[:200] for x in b.lines]), replay)
    if files is not None:
        seen, torn = {}, collections.defaultdict(list)
        for f, data in files.items():
            try: recs = avro.decode(data)
            except avro.Bad as e: return ctx.violation("%s: record file %s: %s" % (what, f, e), replay)
            for x in recs:
                if x["error"]:
                    torn[x["request_name"]].append(x["time_total"])
                    ctx.check(x["name"] in names and x["request_url"].split("/")[3] == x["request_name"], lambda: "%s: a cut answer is recorded as %r" % (what, x), replay)
                    continue
                h = dict(map(tuple, x["response_headers"])).get("X-Id")
                k = int(h) if h else None
                if not ctx.check(k in by_id and k not in seen, lambda: "%s: record of answer %r in %s: %s" % (what, k, f, "recorded twice" if k in seen else "not an answer"), replay): return
                seen[k] = x
                b, c = by_id[k], answered[k]
                ctx.check(x["request_name"] == b.name and x["time_total"] == b.total and x["response_body"] == c.body and x["request_url"].endswith(wire_path(c)) and x["name"] in names, lambda: "%s: answer %d: reported %s %d ns, recorded %r" % (what, k, b.name, b.total, {a: repr(x[a])[:100] for a in x}), replay)
                ctx.check(["%s => %s %s %s => %s" % (a["expr"], a["left"], a["compare"], a["right"], str(a["result"]).lower()) for a in x["asserts"]] == b.lines, lambda: "%s: answer %d: reported %r, recorded %r" % (what, k, [l[:100] for l in b.lines], repr(x["asserts"])[:400]), replay)
        ctx.check(seen.keys() == answered.keys(), lambda: "%s: %d answers, %d recorded; missing %r" % (what, len(answered), len(seen), sorted(answered.keys() - seen.keys())[:10]), replay)
        ctx.check({n: sorted(v) for n, v in torn.items()} == {n: sorted(v) for n, v in lost.items()}, lambda: "%s: cut answers reported with the times %r, recorded with %r" % (what, dict(lost), dict(torn)), replay)
        ctx.count("records", len(seen))
        ctx.count("failed_exchanges", sum(map(len, torn.values())))
    want = report.statistics([(b.name, b.total) for b in blocks]) if stat else {}
    ctx.check(stats == want, lambda: "%s: statistics %r, of the reported requests %r" % (what, stats, want), replay)
    # consecutive blocks of different threads
    ctx.count("blocks", len(blocks))
    ctx.count("notes", len(other))
    return blocks


def wire_path(c): return bytes(c.raw).split(b" ", 2)[1].decode()


def wire_name(c): return wire_path(c).split("/")[1]


def play(ctx, env, rng, kind, t, n, k, plan, record, stat, slow, stop=None, speed=None):
    env.plan = plan
    names = rng.sample(sorted({"get", "post_it", "a", "Zed", "r_1", "items", "q", "long_name_of_a_request", "n" * rng.choice([10, 16, 32, 64, 130])} | {rng.choice([x for x in dictionary.words() if x not in gen.KEYWORDS and x not in gen.NATIVES]) for _ in range(2)} - {"i", "missing", "t"}), rng.randint(1, 4))
    source = "let i = 0\n" + "".join('request %s `GET http://127.0.0.1:%d/%s/{i}` [json.id >= 0, json.ok == true, body != "x"]\n' % (x, env.s.port, x) for x in names)
    body = " ".join(rng.choice(["", 'println("note {a}", i)']) + " " + rng.choice(names) + "();" for _ in range(k))
    tests = ["t"] if kind == "named" else ["t%d" % i for i in range(t)]
    for x in tests:
        fail = " if (i == %d) { missing }" % stop if stop is not None and kind == "named" else " missing" if stop is not None and rng.random() < .3 else ""
        source += "test %s { %s let i = i + 1;%s }\n" % (x, body, fail)
    with util.Scratch() as d:
        util.write(d + "/s/a.fan", source)
        os.mkdir(d + "/r")
        args = ["test"] + (["t", "-t", str(t), "-n", str(n)] if kind == "named" else []) + ["-p", d + "/s"] + (["-r", d + "/r"] if record else []) + (["-s"] if stat else [])
        extra = B.fast(speed) if speed else None
        r = slow_pipe(args, 150, rng.random(), extra) if slow else cli.run(args, timeout=150, env=extra)
        conns = env.s.take()
        if not cli.over(ctx, r): return
        files = {os.path.basename(f): open(f, "rb").read() for f in glob.glob(d + "/r/*")} if record else None
    what = "%s of %d threads, %d iterations, %d requests each%s%s%s" % (kind, t, n, k, ", recorded" if record else "", ", statistics" if stat else "", ", slow pipe" if slow else "") + (", clocks %d times as fast" % speed if speed else "")
    replay = {"source": source, "args": args, "out": r.text[:20000], "err": r.err[-1000:].decode("utf-8", "replace"), "plan": vars(plan)}
    blocks = judge(ctx, what, r, conns, files, stat, replay, tests)
    ctx.count("runs")
    ctx.peak("threads", t)
    if blocks: ctx.peak("reported_ns", max(b.total for b in blocks))
    if blocks: ctx.seen((what, tuple(b.lines[0] for b in blocks)), what, len(blocks) > 1)


def bare(ctx, env, rng, t, n):
    """Requests without assertions: counted, reported and recorded like others, whether the exchange succeeds, is cut or finds no server."""
    env.plan = make(rng)
    env.plan.big = 0
    port = env.closed.getsockname()[1]
    source = "".join("request %s `GET http://127.0.0.1:%d/%s/0`%s\n" % (x, port if x == "nobody" else env.s.port, x, rng.choice([" []", ""])) for x in ("plain", "other", "nobody")) + "test t { plain(); nobody() other(); plain(); }\n"
    record, slow = rng.random() < .7, rng.random() < .3
    with util.Scratch() as d:
        util.write(d + "/s/a.fan", source)
        os.mkdir(d + "/r")
        args = ["test", "t", "-t", str(t), "-n", str(n), "-p", d + "/s", "-s"] + (["-r", d + "/r"] if record else [])
        r = slow_pipe(args, 150, rng.random()) if slow else cli.run(args, timeout=150)
        conns = env.s.take()
        if not cli.over(ctx, r): return
        files = [open(f, "rb").read() for f in glob.glob(d + "/r/*")]
    what = "%d threads, %d iterations of requests without assertions%s" % (t, n, ", recorded" if record else "")
    replay = {"source": source, "args": args, "out": r.text[:20000], "err": r.err[-1000:].decode("utf-8", "replace"), "plan": vars(env.plan)}
    if not ctx.check(r.code == 0 and b"panicked" not in r.err, lambda: "%s: exit %r, %r" % (what, r.code, r.err[:500]), replay): return
    try: blocks, stats, _ = report.read(r.text, re.compile("(?!)"))
    except report.Broken as e: return ctx.violation("%s: the output is not whole: %s" % (what, e), replay)
    want = {"plain": 2 * n, "other": n, "nobody": n}
    served = collections.Counter(wire_name(c) for c in conns)
    ctx.check(served == {"plain": 2 * n, "other": n}, lambda: "%s: the server saw %r" % (what, dict(served)), replay)
    got = collections.Counter(b.name for b in blocks)
    ctx.check(got == want, lambda: "%s: %r was called, %r is reported" % (what, want, dict(got)), replay)
    verdicts = collections.Counter((b.name, b.verdict) for b in blocks)
    cut = collections.Counter(wire_name(c) for c in conns if c.broken)
    ctx.check({x: verdicts[x, "FAIL"] for x in want} == {"plain": cut["plain"], "other": cut["other"], "nobody": n}, lambda: "%s: %r were cut and nobody never answered, the verdicts are %r" % (what, dict(cut), dict(verdicts)), replay)
    want = report.statistics([(b.name, b.total) for b in blocks])
    ctx.check(stats == want, lambda: "%s: statistics %r, of the reported requests %r" % (what, stats, want), replay)
    if record:
        try: recs = [x for data in files for x in avro.decode(data)]
        except avro.Bad as e: return ctx.violation("%s: %s" % (what, e), replay)
        a, b = collections.Counter((x["request_name"], x["time_total"], bool(x["error"])) for x in recs), collections.Counter((b.name, b.total, b.verdict == "FAIL") for b in blocks)
        ctx.check(a == b and not any(x["asserts"] for x in recs), lambda: "%s: recorded but not reported %r, reported but not recorded %r" % (what, list((a - b).items())[:5], list((b - a).items())[:5]), replay)
        ctx.count("records", len(recs))
    ctx.count("bare_runs")
    ctx.count("blocks", len(blocks))
    ctx.seen((what, tuple(b.verdict for b in blocks)), what, len(blocks) > 1)


def make(rng):
    p = Plan()
    p.failing, p.broken, p.big, p.delay = rng.choice([0, .3]), rng.choice([0, 0, .15]), rng.choice([0, 0, .2, .6]), rng.choice([0, 0, .003, .02])
    return p


def directed(ctx, env, w, nw):
    import random
    jobs = []
    for kind, t, n, k in (("named", 1, 200, 1), ("named", 64, 640, 1), ("named", 8, 40, 10), ("named", 100, 100, 2), ("unnamed", 60, 1, 5), ("unnamed", 1, 1, 40), ("unnamed", 5, 1, 1), ("named", 2, 2, 100)):
        for slow in (False, True): jobs.append((kind, t, n, k, slow))
    jobs += [(("named", "unnamed")[i % 2], 1, 1, k, False) for i, k in enumerate(dictionary.sizes(1100 if ctx.quick else 9000)) if k > 100]
    jobs += [("named", 2, n, 1, False) for n in dictionary.sizes(1100 if ctx.quick else 20000) if n > 640]
    for i in range(w, 4, nw): bare(ctx, env, random.Random("bare%d" % i), [1, 3][i % 2], 6 * (i + 1))
    for i, (kind, t, n, k, slow) in enumerate(jobs):
        if i % nw == w:
            rng = random.Random(i)
            play(ctx, env, rng, kind, t, n, k, make(rng), True, True, slow, speed=SPEEDS[i % len(SPEEDS)] if i % 4 > 1 else None)


def case(ctx, rng, env):
    if rng.random() < .12:
        t = rng.choice([1, 1, 2, 4, 12])
        return bare(ctx, env, rng, t, t * rng.choice([1, 2, 5]))
    kind = rng.choice(["named", "named", "unnamed"])
    t = rng.choice([1, 2, 3, 8, 16, 40]) if kind == "named" else rng.randint(1, 16)
    play(ctx, env, rng, kind, t, rng.choice([1, t, 2 * t, 3 * t + 1, 5 * t]), rng.choice([1, 1, 2, 3, 8]), make(rng), rng.random() < .7, rng.random() < .7, rng.random() < .4, rng.choice([None, None, 0, 1]), rng.choice([None] + SPEEDS))
