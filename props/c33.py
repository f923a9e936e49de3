"""C33: the threads of a run, and the tests of a file, really run at the same time."""
import threading, time
from mon import build as B, cli, httpd, net, report, util, wire

RULE = ("the server is the monitor: it answers nobody until as many requests are waiting as there should be threads (or tests) at work, in the first and in later rounds, or keeps one exchange waiting until all the others have done their whole share; "
        "how many were in flight at once, what the others achieved and what they had reported meanwhile is observed. Non-trivial: a distinct run whose exchanges overlapped as required.")
FLOOR = 60
BUDGET = {"quick": 18, "thorough": 240}
PATIENCE = 25.0


def build():
    B.cli()
    B.preload("shim")


class Gate:
    """Holds answers until `need` requests wait (one round), or all but the first until `others` are answered."""

    def __init__(self):
        self.cond = threading.Condition()
        self.reset("round", 1)

    def reset(self, mode, need, held=1):
        with self.cond:
            self.mode, self.need, self.held = mode, need, held
            self.waiting = self.peak = self.round = self.answered = self.started = 0
            self.late = 0

    def enter(self):
        with self.cond:
            self.started += 1
            first = self.started <= self.held
            end = time.monotonic() + PATIENCE
            if self.mode == "round":
                self.waiting += 1
                self.peak = max(self.peak, self.waiting)
                if self.waiting >= self.need:
                    self.waiting, self.round = 0, self.round + 1
                    self.cond.notify_all()
                    return
                r = self.round
                while self.round == r:
                    left = end - time.monotonic()
                    if left <= 0 or self.late:
                        self.late += 1
                        self.waiting -= 1
                        self.cond.notify_all()
                        return
                    self.cond.wait(left)
            elif self.mode == "hold":
                if not first: return
                while self.answered < self.need:
                    left = end - time.monotonic()
                    if left <= 0:
                        self.late += 1
                        return
                    self.cond.wait(left)

    def leave(self):
        with self.cond:
            self.answered += 1
            self.cond.notify_all()


class Env: pass


def setup(ctx):
    e = Env()
    e.gate = Gate()

    def answer(conn):
        conn.request()
        e.gate.enter()
        conn.send(wire.response(body=b"{}"))
        conn.fin()
        conn.drain()
        e.gate.leave()
    e.s = httpd.Server(answer, backlog=2048)
    e.scratch = util.Scratch("amload.")
    e.net = net.Net(e.scratch.path, answer)
    return e


def teardown(e):
    e.s.close()
    e.net.close()
    e.scratch.__exit__()


def go(ctx, env, source, args, record):
    with util.Scratch() as d:
        util.write(d + "/s/a.fan", source)
        extra = []
        if record:
            util.write(d + "/r/.keep", "")
            extra = ["-r", d + "/r"]
        r = cli.run(["test"] + args + ["-p", d + "/s"] + extra, timeout=120, idle=60)
        conns = env.s.take()
    return r, conns


def source(port, body): return "request q `GET http://127.0.0.1:%d/` [status == 200]\ntest other { println(\"OTHER\") }\ntest t { %s }\n" % (port, body)


def rounds(ctx, env, t, k, body, calls, extra, record=False):
    """t threads of k iterations with so many calls each: every round has all threads in flight."""
    env.gate.reset("round", t)
    args = ["t", "-t", str(t), "-n", str(t * k)] + extra
    r, conns = go(ctx, env, source(env.s.port, body), args, record)
    replay = {"args": args, "body": body, "out": r.text[-3000:]}
    what = "test %s" % " ".join(args)
    ctx.check(not env.gate.late, lambda: "%s: never more than %d of its %d threads had a request in flight at once (waited %d s)" % (what, env.gate.peak, t, PATIENCE), replay)
    if not cli.over(ctx, r, replay): return
    ctx.check(env.gate.round == k * calls, lambda: "%s: %d rounds of %d requests, expected %d" % (what, env.gate.round, t, k * calls), replay)
    ctx.count("rounds", env.gate.round)
    ctx.peak("in_flight", env.gate.peak)
    ctx.seen(("rounds", t, k, body, tuple(extra), record), what)


def tests(ctx, env, m, extra, record=False):
    """m tests of an unnamed run are in flight at once."""
    env.gate.reset("round", m)
    text = "request q `GET http://127.0.0.1:%d/`;\n" % env.s.port + "".join("test t%d { q(); q() }\n" % i for i in range(m))
    r, conns = go(ctx, env, text, extra, record)
    replay = {"args": extra, "out": r.text[-3000:]}
    what = "test (all of %d tests) %s" % (m, extra)
    ctx.check(not env.gate.late, lambda: "%s: never more than %d of its tests had a request in flight at once (waited %d s)" % (what, env.gate.peak, PATIENCE), replay)
    if not cli.over(ctx, r, replay): return
    ctx.check(env.gate.round == 2, lambda: "%s: %d rounds, expected 2" % (what, env.gate.round), replay)
    ctx.count("rounds", env.gate.round)
    ctx.peak("tests_in_flight", env.gate.peak)
    ctx.seen(("tests", m, tuple(extra), record), what)


def held(ctx, env, t, k, h, extra, record=False):
    """h threads are kept waiting in their first exchange: the others do their whole share meanwhile."""
    env.gate.reset("hold", (t - h) * k, h)
    args = ["t", "-t", str(t), "-n", str(t * k)] + extra
    r, conns = go(ctx, env, source(env.s.port, "q()"), args, record)
    replay = {"args": args, "held": h, "out": r.text[-3000:]}
    what = "test %s with %d threads kept waiting" % (" ".join(args), h)
    ctx.check(not env.gate.late, lambda: "%s: the others did only %d of their %d exchanges" % (what, env.gate.answered, (t - h) * k), replay)
    if not cli.over(ctx, r, replay): return
    ctx.check(len(conns) == t * k and r.text.count("=== TEST  q") == t * k, lambda: "%s: %d requests, %d reports, expected %d" % (what, len(conns), r.text.count("=== TEST  q"), t * k), replay)
    ctx.count("exchanges_while_held", (t - h) * k)
    ctx.seen(("held", t, k, h, tuple(extra), record), what)


def stuck(ctx, env, kind, m, k, extra):
    """One test waits for its name's lookup, or its connect, or its answer: the others do all of theirs meanwhile."""
    env.gate.reset("hold", m * k, 0)
    names = {"lookup": "stuck.example", "connect": "deaf.example", "both": "stuck.example"}
    addrs = {"stuck.example": ["9.9.9.1"] if kind != "both" else ["9.9.9.1", "2001:db8::1"], "deaf.example": ["9.9.9.2"], "good.example": ["9.9.9.3"], "many.example": ["2001:db8::4", "9.9.9.4"]}
    env.net.set(addrs, {"9.9.9.2": ("hang", 0)}, 0, ["stuck.example"])
    text = "request q `GET http://good.example/`;\nrequest p `GET http://many.example:81/`;\nrequest z `GET http://%s/`;\ntest first { z() }\n" % names[kind]
    text += "".join("test t%d { %s }\n" % (i, "; ".join(("q()", "p()")[(i + j) % 2] for j in range(k))) for i in range(m))
    late = []

    def watch():
        end = time.monotonic() + PATIENCE
        with env.gate.cond:
            while env.gate.answered < m * k and time.monotonic() < end and not over.is_set(): env.gate.cond.wait(.1)
            if env.gate.answered < m * k: late.append(env.gate.answered)
        while True:  # the wait may only begin now
            env.net.release()
            if over.wait(.02): break
    over = threading.Event()
    with util.Scratch() as d:
        util.write(d + "/s/a.fan", text)
        t = threading.Thread(target=watch)
        t.start()
        try: r = cli.run(["test"] + extra + ["-p", d + "/s"], env=env.net.env, timeout=120, idle=60)
        finally:
            over.set()
            t.join()
    asked = [e for e in env.net.events() if e[0] == "G" and e[1] == names[kind]]
    conns = env.net.take()
    what = "tests of %d requests beside one that waits for its %s" % (m * k, kind)
    replay = {"source": text, "args": extra, "out": r.text[-3000:], "events": env.net.events()[-60:]}
    ctx.check(not late, lambda: "%s: the others did only %r of their %d exchanges" % (what, late, m * k), replay)
    if not cli.over(ctx, r, replay): return
    ctx.check(r.text.count("--- PASS") == m * k + (kind != "connect") and len(asked) == 1, lambda: "%s: %d reports passed, %d connections, %d lookups of it" % (what, r.text.count("--- PASS"), len(conns), len(asked)), replay)
    ctx.count("exchanges_while_stuck", m * k)
    ctx.seen(("stuck", kind, m, k, tuple(extra)), what)


BODIES = [("q()", 1), ("q(); q()", 2), ("println(\"x\"); q(); println(\"y\")", 1), ("let r = q(); let s = [r.status, r.body, length(r.headers)]; q()", 2)]


def directed(ctx, env, w, nw):
    jobs = []
    for t in (2, 3, 4, 8, 16, 32, 64, 100):
        for i, (b, c) in enumerate(BODIES): jobs.append(lambda t=t, b=b, c=c, i=i: rounds(ctx, env, t, 3 if t < 20 else 2, b, c, [[], ["-s"]][i % 2], i > 1))
    for m in (2, 3, 5, 10, 30, 80): jobs += [lambda m=m: tests(ctx, env, m, []), lambda m=m: tests(ctx, env, m, ["-s"], True)]
    for t, k, h in ((2, 5, 1), (3, 4, 1), (3, 4, 2), (8, 3, 1), (8, 3, 7), (16, 10, 4), (2, 100, 1), (50, 2, 20), (100, 2, 3)):
        for extra, record in (([], False), (["-s"], True)): jobs.append(lambda t=t, k=k, h=h, e=extra, r=record: held(ctx, env, t, k, h, e, r))
    for i, kind in enumerate(("lookup", "connect", "both")):
        for m, k in ((1, 3), (4, 5), (20, 2), (100, 1)): jobs.append(lambda kind=kind, m=m, k=k, i=i: stuck(ctx, env, kind, m, k, [[], ["-s"]][(i + m) % 2]))
    for i, j in enumerate(jobs):
        if i % nw == w: j()


def case(ctx, rng, env):
    r = rng.random()
    extra, record = rng.choice([[], ["-s"]]), rng.random() < .4
    t = rng.choice([2, 3, 4, 5, 6, 7, 9, 12, 20])
    if r < .4:
        b, c = rng.choice(BODIES)
        rounds(ctx, env, t, rng.randint(1, 4), b, c, extra, record)
    elif r < .5: stuck(ctx, env, rng.choice(["lookup", "connect", "both"]), rng.randint(1, 12), rng.randint(1, 4), extra)
    elif r < .65: tests(ctx, env, rng.randint(2, 25), extra, record)
    else: held(ctx, env, t, rng.randint(1, 8), rng.randint(1, t - 1), extra, record)
