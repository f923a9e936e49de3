"""C14: connecting succeeds if any resolved address does."""
import itertools, time
from mon import build as B, dictionary, httpd, net, probe, util, wire
from props import c13

RULE = ("hosts resolving to 0..65 IPv4/IPv6 addresses, each accepting, accepting slowly, refusing, failing late or never answering, in every order for short lists and random ones for long; lookups and connects of the real client are "
        "under control of a preloaded shim, local servers record what arrives on every connection. Non-trivial: a distinct (address families, behaviours) in its order with at least two addresses or a failure.")
ASSUMPTIONS = ["an address that never answers is a connect call that does not return until the exchange is over", "address lists with an address that never answers and none that accepts are not run (the operating system's own timeout would end them)"]
FLOOR = 150
BUDGET = {"quick": 25, "thorough": 300}
WORKERS = 24
KINDS = ["ok", "slow", "refuse", "late", "hang"]


def build(): c13.build()


def setup(ctx):
    e = c13.setup(ctx)
    e.p.stop()
    # threads whose connect never returns keep their stacks until the case is over
    e.p = probe.Probe(env=e.net.env, memory=64 << 30)
    return e


teardown = c13.teardown


def play(ctx, env, addrs, scheme="http", calls=1):
    """addrs: [(address, kind, ms)] in the order the resolver gives them."""
    env.net.set({"h.example": [a for a, _, _ in addrs]}, {a: (k, ms) for a, k, ms in addrs})
    message = "POST %s://h.example:8099/p\nHost: h.example\n\n%s" % (scheme, "body " * 200)
    what = ", ".join("%s %s%s" % (a, k, ":%d" % ms if ms else "") for a, k, ms in addrs)
    good = any(k in ("ok", "slow") for _, k, _ in addrs)
    t0 = time.monotonic()
    steps, why = util.session(env.p, ["request r `%s` [status == 200]" % message] + ["r()"] * calls, idle=40)
    took = time.monotonic() - t0
    events = env.net.events()
    env.net.release()
    env.p.settle()
    # connects that were still waiting may reach a server only now, and must then stay silent
    conns = env.net.take()
    replay = {"addresses": what, "events": [list(e) for e in events][:60], "seconds": took, "raw": [repr(bytes(c.raw[:200])) for c in conns]}
    if not ctx.check(steps is not None, lambda: "%s: %s" % (what, why), replay): return
    full = [c for c in conns if c.raw]
    steps = steps[1:]
    display = [s["records"][0]["display"] if s.get("records") else repr(s) for s in steps]
    if good:
        ctx.check(len(full) == calls, lambda: "%s: %d calls, %d connections carried bytes; %s" % (what, calls, len(full), display), replay)
        for c in full:
            why = wire.check(c.raw, "POST", "/p", "HTTP/1.1", [("Host", "h.example")], ("body " * 200).strip().encode())
            ctx.check(why is None, lambda: "%s: %s" % (what, why), replay)
        for d in display: ctx.check("--- PASS  r (" in d, lambda: "%s: reported %r" % (what, d), replay)
    else:
        ctx.check(not full, lambda: "%s: %d connections carried bytes" % (what, len(full)), replay)
        for s, d in zip(steps, display):
            ctx.check("--- FAIL  r (" in d, lambda: "%s: reported %r" % (what, d), replay)
            if "error" in (s.get("records") or [{}])[0]: ctx.check(s["records"][0]["error"] != "", lambda: "%s: no error recorded" % what, replay)
    tried = {e[2] for e in events if e[0] == "C"}
    ctx.check(tried <= {a for a, _, _ in addrs}, lambda: "%s: connected to %r" % (what, tried), replay)
    ctx.count("attempts", len(tried))
    ctx.count("delivered" if good else "failed", calls)
    ctx.count("idle_connections", len(conns) - len(full))
    ctx.peak("milliseconds", int(took * 1000))
    ctx.seen(tuple((":" in a, k, ms) for a, k, ms in addrs), what, len(addrs) != 1 or addrs[0][1] != "ok")


def address(i, six):
    """Addresses in no order of their own."""
    k = (i * 83 + 40) % 254 + 1
    return "2001:db8::%x" % k if six else "9.9.9.%d" % k


def directed(ctx, env, w, nw):
    jobs = [[]] + [[(address(0, six), k, ms)] for six in (False, True) for k in ("slow", "late") for ms in (100, 700, 1500)]
    # patience: no limit of its own on an attempt
    for ms in (3200, 5500, 8000, 11000):
        jobs += [[(address(0, False), "slow", ms)], [(address(0, False), "refuse", 0), (address(1, True), "slow", ms)], [(address(0, True), "slow", ms), (address(1, False), "late", ms - 900), (address(2, True), "hang", 0)]]
    for n in (1, 2):
        for kinds in itertools.product(KINDS, repeat=n):
            for six in itertools.product((False, True), repeat=n): jobs.append([(address(i, s), k, 40 if k in ("slow", "late") else 0) for i, (k, s) in enumerate(zip(kinds, six))])
    for kinds in itertools.product(("ok", "refuse", "hang"), repeat=3):
        for six in ((False, False, False), (True, True, False), (True, False, True)): jobs.append([(address(i, s), k, 0) for i, (k, s) in enumerate(zip(kinds, six))])
    # answers on either side of the race delay, and after all attempts were started
    for ms in (150, 190, 199, 200, 201, 210, 250, 390, 400, 410, 600, 900):
        jobs += [[(address(0, False), "slow", ms), (address(1, False), "refuse", 0)], [(address(0, False), "slow", ms), (address(1, False), "slow", ms)], [(address(0, True), "hang", 0), (address(1, False), "slow", ms)],
                 [(address(0, False), "slow", ms), (address(1, True), "late", ms // 2), (address(2, False), "refuse", 0)], [(address(0, False), "late", ms), (address(1, False), "slow", 30)]]
    # only one accepts, at each place of a full list
    for good in range(8):
        for other in ("refuse", "hang"): jobs.append([(address(i, i % 2 == 1), "ok" if i == good else other, 0) for i in range(8)])
    # long lists
    for n in (9, 10, 11, 12, 13, 16, 17, 20, 21, 24, 25, 32, 33, 40, 48, 64, 65):
        for six in (lambda i: False, lambda i: True, lambda i: i % 2 == 0, lambda i: i < n // 2, lambda i: i == n - 1, lambda i: i != n - 1):
            for good in (n - 1, n // 2):
                jobs.append([(address(i, six(i)), "ok" if i == good else "refuse", 0) for i in range(n)])
    for n in (10, 17): jobs.append([(address(i, i % 2 == 1), "ok" if i == n - 1 else "hang", 0) for i in range(n)])
    for other in ("refuse", "late"): jobs.append([(address(i, i % 3 == 1), other, 30 if other == "late" else 0) for i in range(8)])
    for n in (2, 4, 8): jobs.append([(address(i, i % 2 == 0), "ok", 0) for i in range(n)])
    order = [j for i, j in enumerate(jobs) if i % nw == w]
    for addrs in order:
        kinds = {k for _, k, _ in addrs}
        if "hang" in kinds and not kinds & {"ok", "slow"}: continue
        play(ctx, env, addrs, calls=2 if len(addrs) == 2 and "hang" not in kinds else 1)


def case(ctx, rng, env):
    n = rng.choice([1, 2, 2, 3, 4, 5, 6, 8, 12])
    kinds = [rng.choice(KINDS) for _ in range(n)]
    if rng.random() < .75 and not {"ok", "slow"} & set(kinds): kinds[rng.randrange(n)] = rng.choice(["ok", "slow"])
    if not {"ok", "slow"} & set(kinds): kinds = ["late" if k == "hang" else k for k in kinds]
    addrs = [(address(i, rng.random() < .5), k, rng.choice([5, 50, 180, 200, 220, 350, 500]) if k in ("slow", "late") else 0) for i, k in enumerate(kinds)]
    play(ctx, env, addrs, calls=rng.choice([1, 1, 2]))
