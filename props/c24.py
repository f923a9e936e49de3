"""C24: recorded iterations survive a crash or a failing disk."""
import glob, json, os, random, signal, threading, time
from mon import avro, build as B, cli, httpd, probe, report, util, wire
from props import c23

LEVEL = "fault_enumeration"
RULE = ("the real writer writes to a sink that, at every one of its writes, accepts part, is interrupted, or fails for good; real runs are killed at random moments, while the server holds their answers, and at chosen byte offsets of their record files (the write beyond them kills the "
        "process, or fails), or record to a full device. What is left is decoded strictly: every iteration known to be followed by another (the server saw the next one) must be there, complete and true, with at most the last block cut. Non-trivial: a distinct fault.")
ASSUMPTIONS = ["what follows a failed write in a file whose sink recovers later is not judged", "a crash is the death of the process, not of the machine"]
FLOOR = 300
BUDGET = {"quick": 25, "thorough": 300}
WORKERS = 12


def build():
    B.probe()
    B.cli()


class Env: pass


def setup(ctx):
    e = Env()
    e.p = probe.Probe()
    e.cond, e.arrived, e.held, e.holding, e.size = threading.Condition(), 0, 0, False, 0
    e.s = httpd.Server(lambda conn: answer(e, conn), backlog=2048)
    return e


def teardown(e):
    e.p.stop()
    e.s.close()


def answer(e, conn):
    conn.request()
    with e.cond:
        e.arrived += 1
        e.cond.notify_all()
        if e.holding:
            e.held += 1
            e.cond.notify_all()
            while e.holding: e.cond.wait(1)
    conn.body = json.dumps({"id": conn.index, "pad": "p" * e.size})
    conn.send(wire.response(headers=[("X-Id", str(conn.index))], body=conn.body))
    conn.fin()
    conn.drain()


# ---- the writer and a faulty sink

def sink(ctx, env, lines, plan, what):
    e_lines = ["request q `GET http://127.0.0.1:%d/`[status == 200]" % env.s.port] + lines
    times = [["t", 3, i] for i in range(len(e_lines))]
    steps, reply = util.session(env.p, e_lines, writes=True, plan=plan, times=times, idle=60)
    env.s.take()
    replay = {"lines": e_lines, "plan": plan[:200]}
    if not ctx.check(steps is not None, lambda: "a sink that %s: %s" % (what, reply), replay): return None
    data = bytes.fromhex(reply["file"])
    replay["file"] = reply["file"][:20000]
    ctx.check(all("ok" in s for s in steps), lambda: "a sink that %s: steps %r" % (what, [s for s in steps if "ok" not in s]), replay)
    fails = -1 in plan
    try:
        if fails:
            try: blocks, cut = avro.prefix(data)
            except avro.Cut: blocks, cut = [], True  # within the header
        else: blocks, cut = list(avro.blocks(data)), False
    except avro.Bad as e: return ctx.violation("a sink that %s: the file is not decodable: %s" % (what, e), replay)
    # blocks in order are the iterations in order; all of what fits before the end of the data
    want = [(i, s["records"]) for i, s in enumerate(steps) if s["records"]]
    got = [b for b, _ in blocks]
    if not fails: ctx.check(len(got) == len(want), lambda: "a sink that %s: %d blocks of %d iterations" % (what, len(got), len(want)), replay)
    ctx.check(len(got) <= len(want), lambda: "a sink that %s: %d blocks of %d iterations" % (what, len(got), len(want)), replay)
    for g, (i, r) in zip(got, want): c23.compare(ctx, "a sink that %s" % what, g, "t", 3, i, r, replay)
    ctx.count("sinks")
    ctx.count("sinks_failing" if fails else "sinks_partial")
    ctx.seen(("sink", tuple(lines), tuple(plan)), what)
    return reply.get("calls"), len(data), len(got), len(want)


LINES = ["q()", "1", "q(); q()", "q()"]


def sinks(ctx, env, w, nw):
    env.size = 300
    base = sink(ctx, env, LINES, [], "accepts everything")
    if base is None: return
    calls, size = base[0], base[1]
    jobs = []
    for k in range(calls + 1):
        jobs += [([-2] * k + [0], "is interrupted at write %d" % k), ([-2] * k + [0] * 5, "is interrupted five times at write %d" % k), ([-2] * k + [-1], "fails from write %d on" % k)]
        for n in (1, 2, 7, 100, 1000):
            jobs += [([-2] * k + [n], "accepts %d bytes at write %d" % (n, k)), ([-2] * k + [n, -1], "accepts %d bytes at write %d and then fails" % (n, k)), ([-2] * k + [n, 0, n, 0], "accepts %d bytes, and is interrupted, at write %d" % (n, k))]
    jobs += [([1] * 200000, "accepts one byte at a time"), ([0, 1] * 100000, "accepts one byte at a time and is interrupted between"), ([13] * 20000, "accepts 13 bytes at a time"), ([4096] * 1000, "accepts a page at a time")]
    # the sink fails after exactly n bytes
    for n in range(1, size + 1, 1 if not ctx.quick else 41): jobs.append(([n, -1] if n <= size else [-1], "fails after %d bytes of the first write" % n))
    step = 1 if not ctx.quick else 29
    for n in range(1, size + 400, step): jobs.append((bytewise(n), "fails after %d bytes" % n))
    last = 0
    for i, (plan, what) in enumerate(jobs):
        if i % nw == w: sink(ctx, env, LINES, plan, what)


def bytewise(n):
    """Accepts n bytes altogether, in pieces of at most 64, then fails."""
    return [64] * (n // 64) + ([n % 64] if n % 64 else []) + [-1]


# ---- real runs

SOURCE = ('let last = "top"\nrequest q `GET http://127.0.0.1:%d/q/{last}/{step}`[status == 200]\nlet step = 0\n'
          "test t { %s }\n")


def source(env, k): return SOURCE % (env.s.port, " ".join("let step = %d; let r = q(); let last = r.json.id;" % i for i in range(k)))


def followed(conns):
    """The ids of all requests of iterations that were followed by another of their thread."""
    prev, step = {}, {}
    for c in conns:
        p, s = bytes(c.raw).split(b" ", 2)[1].decode().split("/")[2:4]
        prev[c.index], step[c.index] = p, int(s)
    out = set()
    for i, s in step.items():
        if s or prev[i] == "top": continue
        x = int(prev[i])
        while x not in out:
            out.add(x)
            if step.get(x, 0) == 0: break
            x = int(prev[x])
    return out


def examine(ctx, what, d, conns, k, replay, cut_files=None, must=None):
    """Decodes what a run left; returns the number of recorded requests."""
    recorded, cuts = {}, 0
    for f in sorted(glob.glob(d + "/r/*")):
        if os.path.islink(f): continue
        data = open(f, "rb").read()
        replay["file " + os.path.basename(f)] = data.hex()[:10000]
        try: blocks, cut = avro.prefix(data)
        except avro.Cut: blocks, cut = [], True
        except avro.Bad as e: return ctx.violation("%s: file %s is not decodable: %s" % (what, os.path.basename(f), e), replay)
        cuts += cut
        number = 0
        for b, _ in blocks:
            ctx.check([(x["number"], x["order"], x["thread"]) for x in b] == [(number, o, int(os.path.basename(f))) for o in range(k)], lambda: "%s: file %s: iteration %d has %r" % (what, f, number, [(x["number"], x["order"]) for x in b]), replay)
            number += 1
            for x in b:
                h = dict(map(tuple, x["response_headers"])).get("X-Id")
                if not ctx.check(h is not None and int(h) not in recorded, lambda: "%s: recorded %r" % (what, repr(x)[:500]), replay): return
                recorded[int(h)] = x
    log = {c.index: c for c in conns}
    for i, x in recorded.items():
        c = log.get(i)
        ctx.check(c is not None and x["response_body"] == getattr(c, "body", None) and x["request_url"].endswith(bytes(c.raw).split(b" ", 2)[1].decode()), lambda: "%s: recorded %r is not what happened" % (what, repr(x)[:500]), replay)
    need = followed(conns) if must is None else must
    ctx.check(need <= recorded.keys(), lambda: "%s: %d requests of iterations followed by another, %d of them are not in the files (%d are)" % (what, len(need), len(need - recorded.keys()), len(recorded)), replay)
    ctx.count("iterations_followed", len(need) // k)
    ctx.count("recorded", len(recorded))
    ctx.count("cut_files", cuts)
    return len(recorded)


def killed(ctx, env, rng, t, k, after, hold, size, sig=signal.SIGKILL):
    """A run is killed after the server saw some requests, or while all of its threads wait for it."""
    env.size, env.arrived, env.held, env.holding = size, 0, 0, False
    src = source(env, k)
    with util.Scratch() as d:
        util.write(d + "/s/a.fan", src)
        os.mkdir(d + "/r")
        args = ["test", "t", "-t", str(t), "-n", "100000", "-p", d + "/s", "-r", d + "/r"]
        p = cli.spawn(args)
        end = time.monotonic() + 40
        with env.cond:
            while env.arrived < after and time.monotonic() < end: env.cond.wait(.5)
            if hold:
                env.holding = True
                while env.held < t and time.monotonic() < end: env.cond.wait(.5)
        if not hold: time.sleep(rng.random() * .01)
        alive = p.poll() is None
        p.send_signal(sig)
        r = cli.finish(p, 30)
        with env.cond:
            env.holding = False
            env.cond.notify_all()
        conns = env.s.take()
        what = "killed (%s) after %d requests%s: %d threads, %d requests each of %d bytes" % (sig.name, after, ", all waiting" if hold else "", t, k, size)
        replay = {"source": src, "args": args}
        if time.monotonic() > end or r.timeout:
            ctx.inconclusive += 1
            return
        ctx.check(alive, lambda: "%s: it was over before: exit %r, %r" % (what, r.code, r.err[:300]), replay)
        conns = [c for c in conns if b"\r\n\r\n" in c.raw]
        n = examine(ctx, what, d, conns, k, replay)
    ctx.count("kills")
    if hold: ctx.count("kills_while_waiting")
    if n is not None: ctx.seen(("kill", t, k, after, hold, size, n), what, n > 0)


def limited(ctx, env, limit, n, k, how, size):
    """A run of n iterations in one thread whose files cannot grow beyond limit: the write that would kills it, or fails."""
    env.size, env.holding = size, False
    src = source(env, k)
    with util.Scratch() as d:
        util.write(d + "/s/a.fan", src)
        os.mkdir(d + "/r")
        args = ["test", "t", "-n", str(n), "-p", d + "/s", "-r", d + "/r"]
        r_, w_ = os.pipe()
        got = []
        t = threading.Thread(target=lambda: pump(r_, got), daemon=True)
        t.start()
        p = cli.spawn(args, stdout=w_, fsize=limit, xfsz=how)
        os.close(w_)
        r = cli.finish(p, 60, 25)
        t.join(30)
        os.close(r_)
        text = b"".join(got).decode("utf-8", "replace")
        conns = env.s.take()
        what = "a disk of %d bytes (beyond them a write %s), %d iterations of %d requests" % (limit, "fails" if how == "fail" else "kills", n, k)
        replay = {"source": src, "args": args, "limit": limit, "how": how, "err": repr(r.err[-500:]), "out": text[-3000:]}
        if not cli.over(ctx, r): return
        f = d + "/r/000000"
        size = os.path.getsize(f) if os.path.exists(f) else 0
        if how == "fail" or r.code == 0:
            ctx.check(r.code == 0 and b"panicked" not in r.err, lambda: "%s: the run was brought down: exit %r, %r" % (what, r.code, r.err[:400]), replay)
            ctx.check(len(conns) == n * k == text.count("--- PASS  q ("), lambda: "%s: %d requests made, %d reported, of %d" % (what, len(conns), text.count("--- PASS  q ("), n * k), replay)
        else: ctx.check(r.code == -signal.SIGXFSZ, lambda: "%s: exit %r, %r" % (what, r.code, r.err[:400]), replay)
        full = size < limit
        # when it fails for good, what was complete before stays; when nothing failed, everything is there
        recorded = examine(ctx, what, d, conns, k, replay, must={c.index for c in conns} if full and r.code == 0 else followed(conns) if how == "die" and not full else set())
        if how == "fail" and not full: whole(ctx, what, f, limit, replay)
    ctx.count("limits")
    if recorded is not None: ctx.seen(("limit", limit, n, k, how), what)


def whole(ctx, what, f, limit, replay):
    """The bytes accepted before the disk was full are the record of the first iterations: decodable up to the limit."""
    data = open(f, "rb").read()
    ctx.check(len(data) == limit, lambda: "%s: %d bytes" % (what, len(data)), replay)


def pump(fd, got):
    while True:
        data = os.read(fd, 65536)
        if not data: return
        got.append(data)


def full_device(ctx, env, t, which):
    """Some threads record to a full device: the run goes on, and the others' files are complete."""
    env.size, env.holding = 50, False
    src = source(env, 1)
    with util.Scratch() as d:
        util.write(d + "/s/a.fan", src)
        os.mkdir(d + "/r")
        for i in which: os.symlink("/dev/full", d + "/r/%06d" % i)
        args = ["test", "t", "-t", str(t), "-n", str(5 * t), "-p", d + "/s", "-r", d + "/r", "-s"]
        r = cli.run(args)
        conns = env.s.take()
        what = "%d threads, %r of them recording to a full device" % (t, which)
        replay = {"source": src, "args": args, "err": repr(r.err[-500:]), "out": r.text[-3000:]}
        if not cli.over(ctx, r): return
        ctx.check(r.code == 0 and b"panicked" not in r.err and len(conns) == 5 * t and r.text.count("--- PASS  q (") == 5 * t and "q count=%d " % (5 * t) in r.text, lambda: "%s: exit %r, %d requests, %d reported: %r" % (what, r.code, len(conns), r.text.count("--- PASS"), r.err[:300]), replay)
        n = examine(ctx, what, d, conns, 1, replay, must=set())
        ctx.check(n is None or n == 5 * (t - len(which)), lambda: "%s: %r requests recorded" % (what, n), replay)
    ctx.count("full_devices")
    ctx.seen(("full", t, tuple(which)), what)


def directed(ctx, env, w, nw):
    sinks(ctx, env, w, nw)
    rng = random.Random(w)
    jobs = []
    for t, k, after in ((1, 1, 1), (1, 1, 2), (1, 1, 30), (1, 3, 10), (4, 1, 50), (8, 2, 100), (30, 1, 100)):
        for hold in (True, False):
            for size in (0, 100000) if t < 9 else (0,): jobs.append(lambda t=t, k=k, after=after, hold=hold, size=size: killed(ctx, env, rng, t, k, after, hold, size))
    jobs += [lambda s=s: killed(ctx, env, rng, 3, 1, 20, True, 0, s) for s in (signal.SIGTERM, signal.SIGABRT, signal.SIGQUIT)]
    for how in ("die", "fail"):
        for limit in list(range(0, 6000, 97 if ctx.quick else 1)): jobs.append(lambda limit=limit, how=how: limited(ctx, env, limit, 8, 2, how, 0))
    for t, which in ((1, [0]), (2, [1]), (5, [0, 3]), (3, [0, 1, 2])): jobs.append(lambda t=t, which=which: full_device(ctx, env, t, which))
    for i, j in enumerate(jobs):
        if i % nw == w: j()


def case(ctx, rng, env):
    r = rng.random()
    if r < .35:
        t, k = rng.choice([1, 1, 2, 4, 8]), rng.choice([1, 1, 2, 3])
        killed(ctx, env, rng, t, k, rng.randint(1, 40 * t), rng.random() < .4, rng.choice([0, 0, 50, 10000, 300000]))
    elif r < .65:
        env.size = rng.choice([0, 10, 5000])
        lines = [rng.choice(["q()", "q(); q()", "1", "q(); q(); q()"]) for _ in range(rng.randint(1, 6))]
        if rng.random() < .5:
            plan = [rng.choice([-2, -2, 0, 1, 2, 50, 1000]) for _ in range(rng.randint(1, 30))] + ([-1] if rng.random() < .4 else [])
            sink(ctx, env, lines, plan, "follows %s" % plan[:40])
        else: sink(ctx, env, lines, bytewise(rng.randint(1, 9000)), "fails after some bytes")
    else: limited(ctx, env, rng.randint(0, 9000), rng.choice([3, 8, 15]), rng.choice([1, 2, 3]), rng.choice(["die", "fail"]), rng.choice([0, 20, 700]))
