"""C43: a run whose output breaks still ends, with its records intact."""
import fcntl, os, re, signal, threading, time
from mon import build as B, cli, httpd, util, wire
from props import c24

RULE = ("runs (1 to 16 threads, by count, by duration and unnamed, with records, statistics, prints) whose standard output is a pipe closed by its reader after any number of bytes, a full device, or a pipe whose reader stops reading for a while (and is interrupted, or not) and goes on. Monitors: the run ends, it "
        "makes no iteration beyond those asked for, what was delivered is whole reports, all iterations that were followed by another are in decodable files, and when the reader goes on everything is delivered. Non-trivial: a distinct run whose output broke or stalled while iterations were to come.")
ASSUMPTIONS = ["the exit status of a run whose output broke, what it says on standard error, and whether it goes on making its remaining iterations, are not judged"]
FLOOR = 60
BUDGET = {"quick": 18, "thorough": 240}
WORKERS = 12
REPORT = re.compile(r"=== TEST  q\nstatus == 200 => 200 == 200 => true\n--- PASS  q \(\d+(?:\.\d+)?(?:ns|µs|ms|s)\)\n")


def build(): B.cli()




def setup(ctx):
    e = c24.Env()
    e.cond, e.arrived, e.held, e.holding, e.size = threading.Condition(), 0, 0, False, 0
    def answer(conn):
        e.last = time.monotonic()
        c24.answer(e, conn)
    e.s = httpd.Server(answer, backlog=2048)
    return e


def teardown(e): e.s.close()


def whole(text):
    """Why a delivered prefix of the output is not whole reports (the last may be cut), or None."""
    pos = 0
    while pos < len(text):
        m = REPORT.match(text, pos)
        if m:
            pos = m.end()
            continue
        rest = text[pos:]
        if "=== TEST  q\nstatus == 200 => 200 == 200 => true\n--- PASS  q (".startswith(rest[:56]) and rest.count("\n") <= 3 and len(rest) < 80: return None
        return "at byte %d: %r" % (pos, rest[:200])
    return None


def play(ctx, env, t, n, k, how, at, options=(), size=20, mode="n", pause=0, interrupt=False):
    """how: close (the reader closes after `at` bytes) | full | stall (the reader stops at `at` bytes for `pause` seconds)."""
    env.size, env.arrived, env.held, env.holding, env.last = size, 0, 0, False, time.monotonic()
    src = c24.source(env, k)
    if mode == "unnamed":
        body = src.split("test t ", 1)
        src = body[0] + "".join("test t%d %s" % (i, body[1]) for i in range(t))
    with util.Scratch() as d:
        util.write(d + "/s/a.fan", src)
        os.mkdir(d + "/r")
        args = ["test"] + ([] if mode == "unnamed" else ["t", "-t", str(t)] + (["-n", str(n)] if mode == "n" else ["-d", "1s"])) + ["-p", d + "/s", "-r", d + "/r"] + list(options)
        what = "%s of %d threads, %d iterations, %d requests each, %s, output %s at %d" % (mode, t, n, k, " ".join(options), how, at)
        replay = {"source": src, "args": args, "how": how, "at": at}
        got = bytearray()
        signalled = [None]
        if how == "full": out, reader = os.open("/dev/full", os.O_WRONLY), None
        else:
            fd, out = os.pipe()
            try: fcntl.fcntl(out, 1031, 4096)  # F_SETPIPE_SZ: little is in between
            except OSError: pass

            def read():
                while len(got) < at or how == "stall":
                    data = os.read(fd, min(4096, max(1, at - len(got))) if len(got) < at else 4096)
                    if not data: break
                    before = len(got)
                    got.extend(data)
                    if how == "stall" and before < at <= len(got):
                        time.sleep(pause / 2)
                        if interrupt and cli.ready(signalled[1].pid):
                            signalled[0] = time.monotonic()
                            signalled[1].send_signal(signal.SIGINT)
                        time.sleep(pause / 2)
                os.close(fd)
            reader = threading.Thread(target=read, daemon=True)
        p = cli.spawn(args, stdout=out)
        os.close(out)
        signalled.append(p)
        if reader: reader.start()
        r = cli.finish(p, 75, 25)
        if reader: reader.join(30)
        conns = [c for c in env.s.take() if b"\r\n\r\n" in c.raw]
        replay["err"], replay["out"] = repr(r.err[-1500:]), bytes(got[-1500:]).decode("utf-8", "replace")
        quiet = r.end - env.last
        ctx.check(not r.timeout or r.hung or quiet < 50, lambda: "%s: it has not ended %.0f s after its last request, busy with something else" % (what, quiet), replay)
        if not cli.over(ctx, r, replay): return
        asked = t * k if mode == "unnamed" else n * k if mode == "n" else None
        if asked is not None: ctx.check(len(conns) <= asked, lambda: "%s: %d requests were made of %d" % (what, len(conns), asked), replay)
        if mode == "d": ctx.check(r.end - r.start < 1 + pause + 14, lambda: "%s: the run of one second took %.1f s" % (what, r.end - r.start), replay)
        text = bytes(got).decode("utf-8", "replace")
        if "-s" not in options:
            why = whole(text)
            ctx.check(why is None, lambda: "%s: what was delivered is not whole reports: %s" % (what, why), replay)
        else: ctx.check(len(re.findall("--- FAIL", text)) == 0, lambda: "%s: a failure is reported" % what, replay)
        reports = text.count("--- PASS  q (")
        if how == "stall":
            ctx.check(reports == len(conns), lambda: "%s: %d requests, %d reports were delivered" % (what, len(conns), reports), replay)
            if asked is not None and signalled[0] is None: ctx.check(len(conns) == asked, lambda: "%s: %d requests were made of %d" % (what, len(conns), asked), replay)
            ctx.check(r.code == 0, lambda: "%s: exit %r, %r" % (what, r.code, r.err[:300]), replay)
            c24.examine(ctx, what, d, conns, k, replay, must={c.index for c in conns})
            ctx.count("interrupted" if signalled[0] else "stalls")
        else:
            ctx.check(reports <= len(conns), lambda: "%s: %d requests, %d reports were delivered" % (what, len(conns), reports), replay)
            examine = c24.examine(ctx, what, d, conns, k, replay)
            ctx.count("broken")
            ctx.count("recorded of broken runs", examine or 0)
        ctx.seen((mode, t, n, k, how, at, options, size, pause, interrupt), what, asked is None or at < asked * 80 or how == "full")


def simple(ctx, env, args, stdin, what, at):
    """eval and repl end, too, when nobody reads them."""
    if at == "full": out = os.open("/dev/full", os.O_WRONLY)
    else:
        fd, out = os.pipe()
        os.close(fd)
    f = None
    if stdin is not None:
        f = os.open("/dev/null", os.O_RDONLY) if stdin == "" else None
        if f is None:
            import tempfile
            f = tempfile.TemporaryFile()
            f.write(stdin.encode())
            f.seek(0)
    p = cli.spawn(args, stdout=out, stdin=f if f is not None else -3)
    os.close(out)
    r = cli.finish(p, 60, 15)
    ctx.check(not r.timeout or r.hung, lambda: "%s, output %s: has not ended after 60 s" % (what, at), {"args": args})
    if not cli.over(ctx, r): return
    ctx.check(r.code is not None and r.code >= 0, lambda: "%s: ended by signal %r" % (what, r.code), {"args": args})
    ctx.count("eval or repl")
    ctx.seen((what, at), what)


def directed(ctx, env, w, nw):
    jobs = []
    for t in (1, 2, 3, 8, 16):
        for at in (0, 1, 50, 300, 3000):
            jobs.append(lambda t=t, at=at: play(ctx, env, t, 12 * t, 1 + t % 2, "close", at))
            jobs.append(lambda t=t, at=at: play(ctx, env, t, 12 * t, 1, "close", at, ("-s",)))
        jobs.append(lambda t=t: play(ctx, env, t, 10 * t, 2, "full", 0))
        jobs.append(lambda t=t: play(ctx, env, t, 10 * t, 1, "full", 0, ("-s",)))
        jobs.append(lambda t=t: play(ctx, env, t, 60 * t, 1, "stall", 700, (), pause=1.2))
        jobs.append(lambda t=t: play(ctx, env, t, 400 * t, 2, "stall", 5000, (), pause=1.2, interrupt=True))
        jobs.append(lambda t=t: play(ctx, env, t, 0, 1, "close", 500, ("-s",) if t % 2 else (), mode="d"))
        jobs.append(lambda t=t: play(ctx, env, t, 0, 1, "full", 0, (), mode="d"))
        jobs.append(lambda t=t: play(ctx, env, t, 1, 3, "close", 100, (), mode="unnamed"))
        jobs.append(lambda t=t: play(ctx, env, t, 1, 3, "full", 0, ("-s",), mode="unnamed"))
        jobs.append(lambda t=t: play(ctx, env, t, 1, 60, "stall", 300, (), mode="unnamed", pause=1))
    lines = "1\n" * 3000
    for at in ("closed", "full"):
        jobs.append(lambda at=at: simple(ctx, env, ["eval", "println(\"a\"); 1"], None, "eval", at))
        jobs.append(lambda at=at: simple(ctx, env, ["eval", ";".join(["println(\"abc\")"] * 500)], None, "eval of many prints", at))
        jobs.append(lambda at=at: simple(ctx, env, [], lines, "repl", at))
        jobs.append(lambda at=at: simple(ctx, env, ["-v"], None, "version", at))
    for i, j in enumerate(jobs):
        if i % nw == w: j()


def case(ctx, rng, env):
    t = rng.choice([1, 1, 2, 3, 4, 6, 8, 12, 16])
    mode = rng.choice(["n", "n", "n", "n", "unnamed", "d"]) if not ctx.quick or rng.random() < .3 else "n"
    how = rng.choice(["close", "close", "close", "full", "stall"])
    k = rng.choice([1, 1, 2, 3]) * (20 if mode == "unnamed" else 1)
    n = t * rng.choice([5, 20, 60])
    play(ctx, env, t, n, k, how, rng.choice([0, 1, 10, 57, 80, 160, rng.randint(0, 4000), rng.randint(0, 80 * max(1, n * k))]), rng.choice([(), (), ("-s",)]), rng.choice([0, 20, 5000]), mode, pause=rng.choice([.3, .8]), interrupt=mode == "n" and rng.random() < .4)
