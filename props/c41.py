"""C41: addresses are tried in turn, each only when it is needed."""
import itertools, time
from mon import build as B, net, probe, util, wire
from props import c13, c14

RULE = ("hosts with 1 to 24 addresses that accept, accept after a moment, refuse, fail late or never answer, in all orders for short lists; the monitor is the order of events at the C library's connect: which address is tried when, relative to the ends of the earlier attempts. "
        "What could also be the machine being slow is a violation only when it happens five times in a row. Non-trivial: a distinct list of addresses and behaviours with more than one attempt possible.")
ASSUMPTIONS = ["the pause after which an address that does not answer is no longer waited for alone is longer than 60 ms and ends by itself; its length is not judged", "the order within a family is the resolver's"]
FLOOR = 120
BUDGET = {"quick": 22, "thorough": 240}
WORKERS = 24
REPEAT = 5


def build(): c13.build()


setup, teardown, address = c14.setup, c14.teardown, c14.address


def observe(env, addrs):
    """(events, connections, steps, why) of one call."""
    env.net.set({"h.example": [a for a, _, _ in addrs]}, {a: (k, ms) for a, k, ms in addrs})
    steps, why = util.session(env.p, ["request r `GET http://h.example:8099/p\nHost: h.example`", "r()"], idle=40)
    time.sleep(.3)  # attempts that are not needed any more would show
    events = env.net.events()
    env.net.release()
    env.p.settle()
    return events, env.net.take(), steps, why


def wrong(addrs, events):
    """What the order of the events breaks, or None. Names are those of the trace: start and end of each attempt."""
    kind = {a: (k, ms) for a, k, ms in addrs}
    order = [a for a, _, _ in addrs]
    started, ended, ids, won = [], {}, {}, None
    for e in events:
        if e[0] == "C":
            _, i, a, _ = e
            if a in started: return "again", "%s was tried twice" % a
            if won is not None: return "needless", "%s was tried although %s had answered" % (a, won)
            # the attempts before this one: each has failed, or never answers, or takes its time
            if started and started[-1] not in ended:
                k, ms = kind[started[-1]]
                if k != "hang" and ms <= 60: return "early", "%s was tried before %s had answered" % (a, started[-1])
            started.append(a)
            ids[i] = a
        elif e[0] == "E":
            if e[1] not in ids: continue  # of a hanging connect of an earlier call, let go only now
            a = ids[e[1]]
            ended[a] = e[2]
            if e[2] == 0 and won is None: won = a
    six = [a for a in order if ":" in a]
    four = [a for a in order if ":" not in a]
    for family in (six, four):
        tried = [a for a in started if a in family]
        if tried != family[:len(tried)]: return "order", "of %s the tried ones were %s" % (family, tried)
    if six and four:
        # no family has to wait for the other one's whole list
        for n in range(2, len(started) + 1):
            a, b = sum(1 for x in started[:n] if x in six), sum(1 for x in started[:n] if x in four)
            if min(a, b) == 0 and n >= 2: return "family", "the first %d tried are all of one family: %s" % (n, started[:n])
            if abs(a - b) > 1 and min(a, b) < (len(six) if a < b else len(four)): return "family", "the families do not take turns: %s" % started[:n]
    if won is None and len(started) < len(order): return "missing", "%s were never tried although nothing answered" % [a for a in order if a not in started]
    return None


TIMED = ("needless", "early")


def play(ctx, env, addrs):
    what = ", ".join("%s %s%s" % (a, k, ":%d" % ms if ms else "") for a, k, ms in addrs)
    bad, replay = [], {}
    for attempt in range(REPEAT):
        events, conns, steps, why = observe(env, addrs)
        replay = {"addresses": what, "events": [list(e) for e in events][:80]}
        if not ctx.check(steps is not None, lambda: "%s: %s" % (what, why), replay): return
        w = wrong(addrs, [e for e in events if e[0] != "G"])
        silent = [c for c in conns if not c.raw]
        ctx.count("attempts", sum(1 for e in events if e[0] == "C"))
        ctx.count("unused_connections", len(silent))
        for c in silent: ctx.check(c.eof or c.reset, lambda: "%s: an unused connection was left open" % what, replay)
        if w is None: break
        if w[0] not in TIMED: ctx.violation("%s: %s" % (what, w[1]), replay)
        bad.append(w[1])
        ctx.count("late_machine")
    else: ctx.violation("%s: %d times out of %d, %s" % (what, len(bad), REPEAT, bad[-1]), replay)
    ctx.seen(tuple((":" in a, k, ms) for a, k, ms in addrs), what, len(addrs) > 1)


def directed(ctx, env, w, nw):
    jobs = []
    for n in (1, 2, 3):
        for kinds in itertools.product(("ok", "refuse", "hang") if n == 3 else ("ok", "slow", "refuse", "late", "hang"), repeat=n):
            for six in itertools.product((False, True), repeat=n):
                if n == 3 and six not in ((False,) * 3, (True, True, False), (False, False, True), (False, True, False)): continue
                jobs.append([(address(i, s), k, 40 if k in ("slow", "late") else 0) for i, (k, s) in enumerate(zip(kinds, six))])
    # a family without an answer does not hold up the other one
    for n in (3, 6, 9): jobs += [[(address(i, True), "hang", 0) for i in range(n)] + [(address(n, False), "ok", 0)], [(address(i, False), "hang", 0) for i in range(n)] + [(address(n, True), "ok", 0)],
                                 [(address(i, True), "refuse", 0) for i in range(n)] + [(address(n, False), "ok", 0)]]
    for ms in (275, 325, 475): jobs += [[(address(0, six), "slow", ms), (address(1, not six), "ok", 0), (address(2, six), "ok", 0)] for six in (False, True)] + [[(address(i, six and i % 2 == 0), "slow", ms) for i in range(4)] for six in (False, True)]
    for n in (4, 8, 16, 24): jobs += [[(address(i, i % 2 == 0), "ok", 0) for i in range(n)], [(address(i, i < n // 2), "refuse", 0) for i in range(n)], [(address(i, i >= n // 2), "refuse", 0) for i in range(n)], [(address(i, i % 3 == 0), "late", 10) for i in range(n)]]
    for i, addrs in enumerate(jobs):
        kinds = {k for _, k, _ in addrs}
        if i % nw == w and ("hang" not in kinds or kinds & {"ok", "slow"}): play(ctx, env, addrs)


def case(ctx, rng, env):
    n = rng.choice([2, 2, 3, 4, 5, 6, 8, 12])
    kinds = [rng.choice(["ok", "slow", "refuse", "refuse", "late", "hang"]) for _ in range(n)]
    if not {"ok", "slow"} & set(kinds): kinds = ["late" if k == "hang" else k for k in kinds]
    # answers that come while others are being tried: their moments keep away from those at which another is started
    late = rng.random() < .4
    ms = lambda k: rng.choice([275, 325, 50]) if late and k == "slow" else 50 if late else rng.choice([5, 20, 50])
    play(ctx, env, [(address(i, rng.random() < .5), k, ms(k) if k in ("slow", "late") else 0) for i, k in enumerate(kinds)])
