"""C22: interrupt and duration stop a run gracefully."""
import glob, os, random, signal, threading, time
from mon import build as B, cli, dictionary, httpd, util
from props import c20

RULE = ("named runs of the real binary are interrupted, or run out of their duration, at random moments and at moments the server controls (all threads in the middle of an iteration, waiting for an answer); the exit, the iterations started and finished, "
        "and the reports of every answered request on stdout, in the record files and in the statistics are judged. Non-trivial: a distinct (stop, threads, requests, moment).")
ASSUMPTIONS = ["a stop is expected to be noticed within 3 s (an iteration started later than that after the signal, or after the duration, is a violation; shorter delays are retried)"]
FLOOR = 60
BUDGET = {"quick": 22, "thorough": 300}
WORKERS = 24
LONG = 100000


def build(): B.cli()


class Env: pass


def setup(ctx):
    e = Env()
    e.plan = c20.Plan()
    e.cond, e.closed_after, e.arrived, e.waiting, e.open, e.firsts = threading.Condition(), None, 0, 0, False, 0
    e.gate = lambda conn: gate(e, conn)
    e.s = httpd.Server(lambda conn: c20.answer(e, conn), backlog=4096)
    return e


def teardown(e): e.s.close()


def gate(e, conn):
    """Holds every request after the first e.closed_after ones until e.open."""
    with e.cond:
        e.arrived += 1
        if c20.wire_name(conn) == "first": e.firsts += 1
        if e.closed_after is not None and e.arrived > e.closed_after:
            e.waiting += 1
            e.cond.notify_all()
            end = time.monotonic() + 60
            while not e.open and time.monotonic() < end: e.cond.wait(1)
        e.cond.notify_all()


def reset(e, after):
    with e.cond: e.closed_after, e.arrived, e.waiting, e.open, e.firsts = after, 0, 0, False, 0


def wait(e, what, timeout=40):
    end = time.monotonic() + timeout
    with e.cond:
        while not what():
            left = end - time.monotonic()
            if left <= 0: return False
            e.cond.wait(min(left, .5))
    return True


def source(env, k):
    reqs = "".join('request %s `GET http://127.0.0.1:%d/%s/{i}` [json.id >= 0, json.ok == true, body != "x"]\n' % (n, env.s.port, n) for n in ("first", "rest"))
    return "let i = 0\n" + reqs + 'test t { println("@start@"); first(); %s println("@end@"); let i = i + 1; }\n' % ("rest();" * (k - 1))


def play(ctx, env, rng, stop, t, k, after, slack, hold, again=0, plan=None, extra=()):
    """stop: ("sigint",) or ("duration", seconds). hold: answers are held after `after` of them; otherwise it stops when that many arrived."""
    env.plan = plan or c20.Plan()
    reset(env, after if hold else None)
    src = source(env, k)
    problem = None
    with util.Scratch() as d:
        util.write(d + "/s/a.fan", src)
        os.mkdir(d + "/r")
        args = ["test", "t", "-t", str(t), "-p", d + "/s", "-r", d + "/r", "-s"] + (["-n", str(LONG * t)] if stop[0] == "sigint" else ["-d", stop[2] if len(stop) > 2 else "%ds" % stop[1]]) + list(extra)
        p = cli.spawn(args)
        seen = True
        if hold: seen = wait(env, lambda: env.waiting >= t)
        elif stop[0] == "sigint": seen = wait(env, lambda: env.arrived >= after)
        firsts = env.firsts
        if seen and stop[0] == "sigint":
            if again > 1 and not hold: time.sleep(rng.random() * .02)
            os.kill(p.pid, signal.SIGINT)
            for _ in range(again):
                time.sleep(rng.random() * .01)
                if p.poll() is None: os.kill(p.pid, signal.SIGINT)
        if seen and hold: time.sleep(slack + (stop[1] if stop[0] == "duration" else 0))
        with env.cond:
            env.open = True
            env.cond.notify_all()
        signalled = time.monotonic()
        r = cli.finish(p, 60)
        conns = env.s.take()
        files = {os.path.basename(f): open(f, "rb").read() for f in glob.glob(d + "/r/*")}
    what = "%s of %d threads, %d requests each, %s" % (stop, t, k, "all in the middle of an iteration after %d answers" % after if hold else "after %d requests" % after)
    replay = {"source": src, "args": args, "out": r.text[-20000:], "err": r.err[-1000:].decode("utf-8", "replace")}
    if r.timeout or not seen:
        if r.timeout and seen: return "%s: it was still running %.0f s later" % (what, r.end - signalled), replay
        if p.returncode is not None and not r.timeout: return "%s: the run was over before (exit %r, %r)" % (what, r.code, r.err[:300]), replay
        ctx.inconclusive += 1
        return None
    a, b = r.text.count("@start@\n"), r.text.count("@end@\n")
    ctx.check(r.code == 0, lambda: "%s: exit %r, %r" % (what, r.code, r.err[:300]), replay)
    ctx.check(a == b, lambda: "%s: %d iterations started, %d finished" % (what, a, b), replay)
    ctx.check(len(conns) == a * k, lambda: "%s: %d iterations of %d requests, the server got %d" % (what, a, k, len(conns)), replay)
    if stop[0] == "duration": ctx.check(r.end - r.start >= stop[1], lambda: "%s: it ended after %.3f s" % (what, r.end - r.start), replay)
    blocks = c20.judge(ctx, what, r, conns, files, True, replay, ["t"])
    ctx.count("iterations", a)
    ctx.count(stop[0])
    ctx.count("held" if hold else "unheld")
    if hold: ctx.count("threads_held_in_an_iteration", t)
    ctx.seen((stop, t, k, after, hold, again), what)
    if hold and a > firsts: return "%s: %d iterations were in progress or done, and %d were made" % (what, firsts, a), replay
    if not hold and stop[0] == "sigint" and r.end - signalled > 5 + slack: return "%s: it went on for %.1f s" % (what, r.end - signalled), replay
    return None


def settle(ctx, env, rng, *a, **kw):
    """What depends on how soon a stop is noticed counts only if it remains so with more and more time."""
    for slack in (.15, 1, 3):
        bad = play(ctx, env, rng, *a[:4], slack, *a[4:], **kw)
        if bad is None: return
        ctx.count("retried")
    ctx.violation(bad[0], bad[1])


def directed(ctx, env, w, nw):
    jobs = []
    for t, k, after in ((1, 1, 0), (1, 3, 7), (2, 1, 5), (4, 2, 0), (8, 1, 100), (8, 5, 33), (40, 1, 60), (100, 2, 0), (3, 20, 100)):
        jobs.append((("sigint",), t, k, after, True))
        jobs.append((("sigint",), t, k, max(after, 1), False))
    for t, k, after in ((1, 1, 3), (4, 3, 20), (16, 1, 40)):
        for s in (1, 2): jobs.append((("duration", s), t, k, after, True))
        jobs.append((("duration", 1), t, k, 0, False))
    jobs += [(("duration", 0), 3, 2, 0, False), (("duration", 3), 2, 1, 0, False), (("sigint",), 300, 1, 1, False), (("duration", 1), 1, 1, 0, False)]
    # stopped in an iteration of every number at which something could be special
    jobs[-1:-1] = [(("sigint",), 1, 1, n, True) for n in dictionary.sizes(1100 if ctx.quick else 20000) if n > 8]
    for i, j in enumerate(jobs):
        if i % nw == w: settle(ctx, env, random.Random(i), *j, extra=["-n", "1"] if i == len(jobs) - 1 else ())
    if not ctx.quick and w == 0: settle(ctx, env, random.Random(0), ("duration", 60, "1m"), 2, 1, 0, False)


def case(ctx, rng, env):
    t, k = rng.choice([1, 2, 3, 5, 8, 20]), rng.choice([1, 1, 2, 3, 10])
    plan = c20.make(rng) if rng.random() < .5 else None
    if rng.random() < .85: settle(ctx, env, rng, ("sigint",), t, k, rng.choice([0, 1, 2, rng.randint(0, 20 * t)]) + 1, rng.random() < .4, again=rng.choice([0, 0, 1, 3]), plan=plan)
    else: settle(ctx, env, rng, ("duration", 1), t, k, rng.randint(0, 5 * t), rng.random() < .6, plan=plan)
