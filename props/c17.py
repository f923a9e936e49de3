"""C17: recorded times add up and match what happened."""
import random, time
from mon import avro, build as B, cli, httpd, net, probe, util, wire
from props import c13

RULE = ("exchanges whose lookup, connect, reading of the request, first byte and end are each held up by known amounts (shim and server) or by nothing; the recorded phases must add up exactly, lie within the clock times measured around the "
        "call, contain what the server measured, and show each hold-up in its own phase. Non-trivial: an exchange with its own pattern of hold-ups.")
ASSUMPTIONS = ["exact and containment relations are judged on every exchange; that a hold-up of 150-300 ms shows in its phase and not in another is judged with a slack of half of it and only if five repetitions fail alike",
               "system clock and monotonic clock are not stepped during the run"]
FLOOR = 60
BUDGET = {"quick": 20, "thorough": 200}
WORKERS = 12
SPEEDS = [101, 1009, 10007, 99991, 10000019]
PHASES = ("resolve", "connect", "write", "delay", "read")


def build():
    c13.build()
    B.cli()
    B.preload("fast")


class Env: pass


def handler(env):
    def run(conn):
        plan = env.plan
        if plan.get("write"):
            conn.head()
            time.sleep(plan["write"] / 1000)
        if not conn.request(): return
        conn.mark("request")
        if plan.get("delay"): time.sleep(plan["delay"] / 1000)
        size = plan.get("size", 2)
        data = wire.response(headers=[("Content-Length", str(size))], body=b"x" * size)
        conn.mark("first")
        if plan.get("read"):
            n = plan.get("at", 5)
            conn.send(data[:n])
            time.sleep(plan["read"] / 1000)
            data = data[n:]
        conn.send(data)
        conn.mark("fin")
        conn.fin()
        conn.drain()
    return run


def setup(ctx):
    e = Env()
    e.scratch = util.Scratch("amtime.")
    e.plan = {}
    e.net = net.Net(e.scratch.path, handler(e))
    e.p = probe.Probe(env=e.net.env)
    return e


def teardown(e):
    e.p.stop()
    e.net.close()
    e.scratch.__exit__()


def exact(ctx, label, t, wall, replay):
    """Relations that hold on every schedule."""
    total = sum(t[k] for k in PHASES)
    ctx.check(t["total"] == total, lambda: "%s: total %d is not resolve + connect + write + delay + read = %d (%r)" % (label, t["total"], total, t), replay)
    ctx.check(t["start"] <= t["end"], lambda: "%s: start %d after end %d" % (label, t["start"], t["end"]), replay)
    ctx.check(wall[0] <= t["start"] and t["end"] <= wall[1], lambda: "%s: [%d, %d] is not within the run [%d, %d]" % (label, t["start"], t["end"], *wall), replay)
    ctx.check(t["total"] <= wall[1] - wall[0] + 2000000, lambda: "%s: total %d ns, the run took %d ns" % (label, t["total"], wall[1] - wall[0]), replay)


def once(ctx, env, plan, calls=1):
    """Runs exchanges under a plan; judges the exact relations and returns the phases that do not show the hold-ups."""
    env.plan = plan
    env.net.set({"t.example": ["9.9.9.9"]}, {"9.9.9.9": ("slow", plan["connect"])} if plan.get("connect") else {}, plan.get("lookup", 0))
    body = "b" * (6000000 if plan.get("write") else plan.get("body", 10))
    before = time.time_ns()
    steps, why = util.session(env.p, ["request r `POST http://t.example:88/\n\n%s`\n%s" % (body, "r()\n" * calls)], idle=None, cpu=60)
    after = time.time_ns()
    conns = env.net.take()
    replay = {"plan": plan, "steps": repr(steps)[-3000:]}
    if not ctx.check(steps is not None and "ok" in steps[0], lambda: "%r: %s" % (plan, why or steps), replay): return []
    records = steps[0]["records"]
    ctx.check(len(records) == calls == len(conns), lambda: "%r: %d records, %d connections" % (plan, len(records), len(conns)), replay)
    off = []
    last = before
    for r, c in zip(records, conns):
        if "time" not in r: return []
        t = r["time"]
        label = "hold-ups %r" % plan
        exact(ctx, label, t, (before, after), replay)
        ctx.check(t["start"] >= last, lambda: "%s: started at %d before the previous exchange ended at %d" % (label, t["start"], last), replay)
        last = t["end"]
        m = c.marks
        served = m["fin"] - m["request"]
        waited = m["first"] - m["request"]
        ctx.check(t["total"] >= served, lambda: "%s: total %d ns, the server alone took %d ns" % (label, t["total"], served), replay)
        ctx.check(t["write"] + t["delay"] + t["read"] >= served, lambda: "%s: write + delay + read is %d ns, the server took %d ns" % (label, t["write"] + t["delay"] + t["read"], served), replay)
        ctx.check(t["write"] + t["delay"] >= waited, lambda: "%s: write + delay is %d ns, the server sent its first byte after %d ns" % (label, t["write"] + t["delay"], waited), replay)
        if plan.get("lookup"): ctx.check(t["resolve"] >= plan["lookup"] * 1000000, lambda: "%s: resolve %d ns" % (label, t["resolve"]), replay)
        if plan.get("connect"): ctx.check(t["connect"] >= plan["connect"] * 1000000, lambda: "%s: connect %d ns" % (label, t["connect"]), replay)
        held = {"resolve": plan.get("lookup", 0), "connect": plan.get("connect", 0), "write": plan.get("write", 0), "delay": plan.get("delay", 0), "read": plan.get("read", 0)}
        slack = max([v for v in held.values() if v] + [150]) / 2
        for k, v in held.items():
            if abs(t[k] / 1e6 - v) > slack: off.append("%s is %.1f ms, held up %d ms (%r)" % (k, t[k] / 1e6, v, t))
        ctx.count("exchanges")
        ctx.seen((tuple(sorted(plan.items())), t["total"]), repr(plan), bool(plan))
    return off


def play(ctx, env, plan, calls=1):
    failures = []
    for _ in range(5):
        off = once(ctx, env, plan, calls)
        if not off: return
        failures.append(off)
        time.sleep(.2 * len(failures))
    ctx.violation("hold-ups %r do not show five times: %s" % (plan, failures[-1][0]), {"plan": plan, "failures": failures})


def run(ctx, env, w):
    """The same exactness in the record file of the real binary."""
    env.plan = {"delay": 3 * w, "read": 2}
    env.net.set({"t.example": ["9.9.9.9"]})
    with util.Scratch() as d:
        util.write(d + "/s/a.fan", "request r `GET http://t.example:88/`\ntest t { r() r() }")
        import os
        os.mkdir(d + "/r")
        before = time.time_ns()
        r = cli.run(["test", "t", "-p", d + "/s", "-r", d + "/r", "-t", "3", "-n", "9"], env=env.net.env, timeout=60)
        after = time.time_ns()
        env.net.take()
        if not cli.over(ctx, r): return
        n = 0
        for name in sorted(os.listdir(d + "/r")):
            last = before
            for rec in avro.decode(open(d + "/r/" + name, "rb").read()):
                t = {k: rec["time_" + k] for k in PHASES + ("start", "end", "total")}
                exact(ctx, "record file", t, (before, after), {"record": rec, "stdout": r.text[:2000]})
                ctx.check(t["start"] >= last, lambda: "record file: an exchange starts before the previous one of its thread ended", {"record": rec})
                ctx.check(t["delay"] >= env.plan["delay"] * 500000, lambda: "record file: delay %d" % t["delay"], {"record": rec}) if env.plan["delay"] >= 10 else None
                last = t["end"]
                n += 1
        ctx.check(n == 18, lambda: "%d records, expected 18" % n, {"stdout": r.text[:3000]})
        ctx.count("file_records", n)
        ctx.seen(("run", w), "record file")


def hours(ctx, env, rng, w, speed):
    """Clocks that run faster: the same exactness of times of seconds to days. Served: what the server took is so much longer to the code."""
    env.plan = {"delay": rng.choice([0, 1, 5]), "read": rng.choice([0, 2]), "size": rng.choice([2, 100000])}
    plan = dict(env.plan)
    source = "request r `POST http://127.0.0.1:%d/\n\n%s`\ntest t { r() r() }" % (env.net.v4.port, "b" * rng.choice([1, 3000000]))
    with util.Scratch() as d:
        import os
        util.write(d + "/s/a.fan", source)
        os.mkdir(d + "/r")
        before = time.time_ns()
        r = cli.run(["test", "t", "-p", d + "/s", "-r", d + "/r", "-t", "2", "-n", "4"], env=B.fast(speed), timeout=60)
        after = time.time_ns()
        conns = env.net.take()
        if not cli.over(ctx, r): return
        what = "clocks %d times as fast, %r" % (speed, plan)
        ctx.check(len(conns) == 8, lambda: "%s: %d exchanges, expected 8" % (what, len(conns)), {"stdout": r.text[:3000]})
        served = min(c.marks["fin"] - c.marks["request"] for c in conns)
        wall = (after - before) * speed
        n = 0
        for name in sorted(os.listdir(d + "/r")):
            last = before
            for rec in avro.decode(open(d + "/r/" + name, "rb").read()):
                t = {k: rec["time_" + k] for k in PHASES + ("start", "end", "total")}
                replay = {"plan": plan, "speed": speed, "time": t}
                ctx.check(t["total"] == sum(t[k] for k in PHASES), lambda: "%s: total %d is not the sum of the phases (%r)" % (what, t["total"], t), replay)
                ctx.check(last <= t["start"] <= t["end"] <= before + wall, lambda: "%s: [%d, %d] is not in order within the run [%d, %d]" % (what, t["start"], t["end"], last, before + wall), replay)
                ctx.check(served * speed <= t["total"] <= wall, lambda: "%s: total %d ns, the server took %d, the run %d" % (what, t["total"], served * speed, wall), replay)
                ctx.check(t["write"] + t["delay"] + t["read"] >= served * speed, lambda: "%s: write + delay + read is less than the %d ns the server took (%r)" % (what, served * speed, t), replay)
                last = t["end"]
                n += 1
                ctx.peak("total_ns", t["total"])
        ctx.check(n == 8, lambda: "%s: %d records, expected 8" % (what, n), {"stdout": r.text[:3000]})
        ctx.count("fast_records", n)
        ctx.seen(("hours", speed, tuple(sorted(plan.items())), n), what)


def directed(ctx, env, w, nw):
    jobs = [{}] + [{k: v} for k in ("lookup", "connect", "write", "delay", "read") for v in (150, 300)]
    jobs += [{"lookup": 200, "connect": 150}, {"connect": 150, "delay": 300}, {"delay": 300, "read": 150}, {"delay": 150, "read": 300}, {"write": 200, "delay": 150}, {"lookup": 150, "read": 250}, {"lookup": 150, "connect": 150, "write": 150, "delay": 150, "read": 150}, {"read": 200, "size": 3000000}, {"read": 200, "at": 1}, {"read": 200, "at": 40, "size": 500}, {"read": 200, "size": 0}, {"read": 200, "size": 0, "at": 20}, {"read": 150, "delay": 150, "size": 0}, {"read": 200, "size": 1, "at": 37}, {"delay": 200, "size": 0}, {"delay": 1200}, {"read": 1100}]
    # long ones: a cap or a unit of a second
    jobs += [{k: v} for v in ctx.scale([1700, 2600, 5300], [1700, 2600, 5300, 11000, 31000]) for k in ("lookup", "connect", "write", "delay", "read")]
    for i, plan in enumerate(jobs):
        if i % nw == w: play(ctx, env, plan)
    run(ctx, env, w)
    hours(ctx, env, random.Random(w), w, SPEEDS[w % len(SPEEDS)])


def case(ctx, rng, env):
    r = rng.random()
    if r < .5: play(ctx, env, {k: v for k, v in (("body", rng.choice([1, 5000, 300000])), ("size", rng.choice([1, 5000, 300000])))}, calls=rng.choice([1, 3, 8]))
    elif r < .55: run(ctx, env, rng.randint(0, 8))
    elif r < .65: hours(ctx, env, rng, 0, rng.choice(SPEEDS))
    else: play(ctx, env, {k: rng.choice([150, 200, 300]) for k in rng.sample(["lookup", "connect", "delay", "read"], rng.randint(1, 3))}, calls=rng.choice([1, 1, 2]))
