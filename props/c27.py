"""C27: command-line durations and counts are read exactly."""
import os, re, signal, time
from mon import build as B, cli, httpd, util

RULE = ("the real binary is given every kind of duration and count, valid and invalid. A rejected one must lead to an error, a failing exit, and nothing printed by the sources or asked of the server; an accepted duration is observed as the time the run sleeps "
        "(a preloaded clock logs it and cuts it short) and, for short ones, by the time the run takes; accepted counts by the iterations. Non-trivial: a distinct text.")
ASSUMPTIONS = ["texts with a sign that still name a count (+5, +5s, -0) are not judged", "a duration above 3 s is observed only while it is waited for by sleeping; otherwise that part is skipped (durations_not_observed in the evidence)"]
FLOOR = 250
BUDGET = {"quick": 15, "thorough": 240}
WORKERS = 16
MAX = (1 << 64) - 1
UNITS = {"s": 1, "m": 60, "h": 3600}


def build():
    B.cli()
    B.clock()


class Env: pass


def setup(ctx):
    e = Env()
    e.s = httpd.Server(httpd.respond(httpd.OK))
    e.dir = util.Scratch()
    e.d = e.dir.__enter__()
    os.mkdir(e.d + "/r")
    util.write(e.d + "/s/a.fan", "println(\"@TOP@\")\nrequest q `GET http://127.0.0.1:%d/`\nq()\ntest t { println(\"@IT@\"); q() }\ntest slow { println(\"@IT@\") q() }" % e.s.port)
    return e


def teardown(e):
    e.s.close()
    e.dir.__exit__()


def meaning(text):
    """Seconds of a valid duration, None for an invalid one, "unjudged" for signs."""
    if text.startswith("+"): return "unjudged"
    m = re.fullmatch("([0-9]+)([smh])", text)
    if not m: return None
    n = int(m[1])
    return n * UNITS[m[2]] if n <= MAX and n * UNITS[m[2]] <= MAX else None


def rejected(ctx, env, args, what, named=True):
    r = cli.run(["test"] + (["t"] if named else []) + args + ["-p", env.d + "/s", "-r", env.d + "/r"], timeout=30)
    conns = env.s.take()
    replay = {"args": args, "out": r.text[:2000], "err": repr(r.err[:2000])}
    if r.timeout: return ctx.violation("%s is accepted: the run goes on" % what, replay)
    ctx.check(r.code not in (0, None) and r.code > 0 and b"panicked" not in r.err and len(r.err.strip()) > 0, lambda: "%s: exit %r, %r" % (what, r.code, r.err[:300]), replay)
    ctx.check(b"@" not in r.out and not conns and not os.listdir(env.d + "/r"), lambda: "%s: printed %r, made %d requests, recorded %r" % (what, r.out[:200], len(conns), os.listdir(env.d + "/r")), replay)
    ctx.count("rejected")
    ctx.seen(("rejected", tuple(args), named), what)


def options(rng_or_i, long, value): return [long + "=" + value]


def sleeps(path):
    if not os.path.exists(path): return []
    return [(int(a), int(b)) for _, a, b in (l.split() for l in open(path))]


def duration(ctx, env, text, style=0):
    """What a duration means to the run."""
    s = meaning(text)
    if s == "unjudged": return
    args = [["--duration=" + text], ["-d", text], ["-d" + text], ["--duration", text]][style if text[:1] not in ("", "-") else 0]
    if s is None: return rejected(ctx, env, args, "the duration %r" % text)
    what = "the duration %r" % text
    log = env.d + "/sleeps"
    if os.path.exists(log): os.unlink(log)
    p = cli.spawn(["test", "t"] + args + ["-p", env.d + "/s"], env={"LD_PRELOAD": B.TARGET + "/clock.so", "AM_SLEEPS": log})
    # the longest wait that one call takes is cut short too; beyond it the run has to be ended
    end = time.monotonic() + (2.5 if s > 10 ** 9 else 12)
    while p.poll() is None and time.monotonic() < end: time.sleep(.02)
    early = p.returncode is not None
    end = time.monotonic() + 20
    while p.poll() is None and time.monotonic() < end and not cli.ready(p.pid): time.sleep(.02)
    if not early and p.poll() is None: p.send_signal(signal.SIGINT)
    r = cli.finish(p, 60, 25)
    conns = env.s.take()
    got = sleeps(log)
    replay = {"args": args, "sleeps": got[:50], "out": r.text[-1000:], "err": repr(r.err[:1000])}
    if not cli.over(ctx, r): return
    ctx.check(r.code == 0 and len(conns) == r.text.count("@IT@") + 1, lambda: "%s: exit %r, %d iterations, %d requests, %r" % (what, r.code, r.text.count("@IT@"), len(conns), r.err[:300]), replay)
    if s > 0 and got and s <= 1 << 62:
        total = sum(a for a, _ in got) + sum(b for _, b in got) / 1e9
        ctx.check(abs(total - s) < 1e-6 * s + .001, lambda: "%s is a wait of %r s" % (what, total), replay)
        ctx.count("durations_observed")
    elif s > 1 << 62 and got: ctx.check(got[0][0] >= 1 << 62, lambda: "%s is a wait of %r s" % (what, got[:3]), replay)
    elif s > 0: ctx.count("durations_not_observed")
    if s > 0 and early and not got: ctx.check(r.end - r.start >= s, lambda: "%s: it ended after %.3f s" % (what, r.end - r.start), replay)
    ctx.seen(("duration", text), what)


def real(ctx, env, text, unnamed=False):
    """A short duration, waited for."""
    s = meaning(text)
    for slack in (1, 4, 15):
        r = cli.run(["test"] + ([] if unnamed else ["slow", "-t", "2"]) + ["-d", text, "-p", env.d + "/s"], timeout=s + 40)
        env.s.take()
        replay = {"duration": text, "out": r.text[-500:], "err": repr(r.err[:500])}
        what = "a run of %s" % text
        if r.timeout: break
        if not unnamed: ctx.check(r.end - r.start >= s, lambda: "%s ended after %.3f s" % (what, r.end - r.start), replay)
        ctx.check(r.code == 0, lambda: "%s: exit %r, %r" % (what, r.code, r.err[:300]), replay)
        ctx.count("durations_waited_for")
        ctx.seen(("real", text, unnamed), what)
        if r.end - r.start < s + slack: return
    ctx.violation("%s took %.1f s" % (what, r.end - r.start), replay)


def number(text, low):
    """The count a text means, None when invalid, "unjudged" for signs."""
    if text.startswith("+") or re.fullmatch("-0+", text): return "unjudged"
    if not re.fullmatch("[0-9]+", text): return None
    return int(text) if low <= int(text) < 1 << 32 else None


def counts(ctx, env, t, n):
    """Thread and iteration counts as texts (None: not given)."""
    vt, vn = (1 if t is None else number(t, 1)), (1 if n is None else number(n, 0))
    if "unjudged" in (vt, vn): return
    args = ([] if t is None else ["--threads=" + t]) + ([] if n is None else ["--number=" + n])
    if vt is None or vn is None: return rejected(ctx, env, args, "the counts threads=%r number=%r" % (t, n))
    if vt > 1000: return
    what = "threads=%r number=%r" % (t, n)
    p = cli.spawn(["test", "t"] + args + ["-p", env.d + "/s"])
    if vn > 3000:  # seen to go on
        end = time.monotonic() + 30
        while p.poll() is None and time.monotonic() < end and (not cli.ready(p.pid) or len(env.s.conns) < 60): time.sleep(.02)
        alive = p.poll() is None
        p.send_signal(signal.SIGINT)
    r = cli.finish(p, 60, 25)
    conns = env.s.take()
    replay = {"args": args, "out": r.text[-1000:], "err": repr(r.err[:1000])}
    if not cli.over(ctx, r): return
    k = r.text.count("@IT@")
    ctx.check(r.code == 0 and len(conns) == k + 1, lambda: "%s: exit %r, %d iterations, %d requests" % (what, r.code, k, len(conns)), replay)
    if vn > 3000: ctx.check(k >= min(vn, 50) and (alive or k == vn), lambda: "%s: %d iterations, still running: %s" % (what, k, alive), replay)
    else: ctx.check(k == vn, lambda: "%s: %d iterations" % (what, k), replay)
    ctx.count("counts_accepted")
    ctx.seen(("counts", t, n), what)


BAD = ["", "s", "m", "h", "5", "60", "5S", "5M", "5H", "5 s", " 5s", "5s ", "-5s", "-0s", "5.0s", "0.5h", "1e3s", "５s", "٣s", "5ss", "5ms", "5us", "5ns", "5d", "5w", "5y", "s5", "0x5s", "5_000s", "5,0s", "5s5s", "1h30m", "1m30s", "5sm", "5é", "é", "5\u00a0s", "5\ts", "5\n", "\u20035s",
       "ms", "hms", "5min", "5sec", "five s", "5'", "½h", "NaNs", "infs", "5s\n", "--5s", "5\u017f", "5\uff53", "\u217cs", "1__m", "%5s", "5%", "0", "00", "*s", "5s.", "'5s'", "()s"]
HUGE = [str(MAX + 1) + "s", str(MAX + 1) + "m", str(10 ** 30) + "s", str(MAX) + "m", str(MAX) + "h", str(MAX // 60 + 1) + "m", str(MAX // 3600 + 1) + "h", "9" * 20 + "s", "9" * 100 + "h", "1" + "0" * 20 + "m", str((1 << 64) + 5) + "s", str((1 << 63) // 30) + "m"]
GOOD = ["0s", "0m", "0h", "1s", "2s", "3s", "10s", "59s", "60s", "61s", "90s", "100s", "3599s", "3600s", "86400s", "1m", "2m", "5m", "10m", "59m", "60m", "61m", "90m", "1440m", "1h", "2h", "3h", "12h", "24h", "25h", "100h", "1000h", "007s", "010m", "0001h", "000000000000000000000000000001s", "65535s", "65536s", "65537m",
        "1000000s", "4294967295s", "4294967296s", "4294967297m", "71582788m", "71582789m", "1193046h", "1193047h", "1000000000h"]
EDGE = [str(MAX) + "s", str(MAX // 60) + "m", str(MAX // 3600) + "h", str(1 << 63) + "s", str((1 << 63) - 1) + "s"]
COUNTS = ["", "x", "1.0", "1.5", "-1", "-0", " 1", "1 ", "1e2", "0x10", "１", "٣", "1_0", "1,0", "4294967296", "4294967297", "18446744073709551616", "18446744073709551617", "9" * 40, "--", "1s", "NaN", "null", "½", "1\n", "\t1", "*", "'1'"]


def directed(ctx, env, w, nw):
    jobs = []
    for s in (1, 2, 3): jobs.append(lambda s=s: real(ctx, env, "%ds" % s))
    jobs += [lambda: real(ctx, env, "0s"), lambda: real(ctx, env, "1s", True)]
    if not ctx.quick: jobs.append(lambda: real(ctx, env, "1m"))
    for i, t in enumerate(EDGE): jobs.append(lambda t=t: duration(ctx, env, t))
    for i, t in enumerate(BAD + HUGE + GOOD): jobs.append(lambda i=i, t=t: duration(ctx, env, t, i % 4))
    for t in BAD[:12] + HUGE[:3]: jobs.append(lambda t=t: rejected(ctx, env, ["--duration=" + t], "the duration %r (all tests)" % t, False))
    for t in COUNTS + ["0"]: jobs.append(lambda t=t: counts(ctx, env, t, "3"))
    for n in COUNTS: jobs.append(lambda n=n: counts(ctx, env, "2", n))
    for t in COUNTS[:8] + ["0", "4294967296"]: jobs.append(lambda t=t: rejected(ctx, env, ["--threads=" + t], "threads=%r (all tests)" % t, False))
    for t, n in ((None, None), ("1", "1"), ("01", "003"), (None, "0"), ("1", "4294967295"), ("7", "4294967295"), ("100", "3"), ("3", "2999"), ("000001", None), ("2", "4000000000"), ("1000", "5"), ("3", "100000")): jobs.append(lambda t=t, n=n: counts(ctx, env, t, n))
    jobs += [lambda a=a: rejected(ctx, env, a, "the arguments %r" % a) for a in (["-d"], ["-t"], ["-n"], ["-d", "1s", "-t", "0"], ["-d", "1x", "-n", "5"], ["-d", "5", "-t", "2"], ["-t", "2", "-n", "x"], ["-x"], ["--durations=1s"], ["-d", "1s", "-n", "-1"])]
    for i, j in enumerate(jobs):
        if i % nw == w: j()


def case(ctx, rng, env):
    r = rng.random()
    if r < .35: t = str(rng.choice([rng.randint(0, 9), rng.randint(0, 10 ** 4), rng.randint(0, 1 << 33)])) + rng.choice("smh")
    elif r < .5: t = str(rng.randint(MAX // 10 ** 4, MAX * 3)) + rng.choice("smh")
    else:
        t = list(str(rng.randint(0, 5000)) + rng.choice("smh"))
        for _ in range(rng.randint(1, 2)):
            k = rng.randrange(len(t) + 1)
            if rng.random() < .6: t.insert(k, rng.choice("smhd0 9.-_eExSMH,é:'\"u"))
            elif t and k < len(t): del t[k]
        t = "".join(t)
    if rng.random() < .7: return duration(ctx, env, t, rng.randint(0, 3))
    v = rng.choice([str(rng.randint(0, 40)), t, t.rstrip("smh"), rng.choice(COUNTS), str(rng.randint(1 << 32, 1 << 40))])
    if rng.random() < .5: counts(ctx, env, v, rng.choice([None, "4"]))
    else: counts(ctx, env, rng.choice([None, "3"]), v if (number(v, 0) in (None, "unjudged")) or number(v, 0) < 3000 else "7")
