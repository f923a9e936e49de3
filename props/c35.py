"""C35: what a run has done is visible while it is still running."""
import os, re, signal, threading, time
from mon import avro, build as B, cli, httpd, report, util, wire

RULE = ("at the moment the server holds a request it reads what the process has written so far (standard output to a file or a pipe, record files): lines printed before the request, and the report blocks and records of every iteration the same thread has finished, must already be there; some runs are then killed. "
        "The same is asked of REPL lines: the answer to a line is there before the next line is given. Non-trivial: a distinct moment at which something had to be visible.")
FLOOR = 1500
BUDGET = {"quick": 18, "thorough": 240}


def build(): B.cli()


class Env: pass


def setup(ctx):
    e = Env()
    e.lock = threading.Lock()
    e.look = None

    def answer(conn):
        if not conn.request(): return
        if e.look: e.look(conn)
        conn.send(wire.response(body=b'{"id": %d}' % conn.index))
        conn.fin()
        conn.drain()
    e.s = httpd.Server(answer, backlog=1024)
    return e


def teardown(e): e.s.close()


def play(ctx, rng, env, t, n, calls, options, record, kill, pipe):
    """Every thread gets an id with its first answer and sends it, with its iteration and call numbers, in all later requests."""
    source = ("let me = \"new\"; let i = 0\n" + "".join("request q%d `GET http://127.0.0.1:%d/{me}/{i}/%d`[status == 200]\n" % (k, env.s.port, k) for k in range(calls)) +
              "test t { println(\"<{a} {b} start>\", me, i); " + "".join("let r = q%d(); if (me == \"new\") { let me = r.json.id }; println(\"<{a} {b} %d>\", me, i); " % (k, k) for k in range(calls)) + "let i = i + 1 }\n")
    seen = []
    state = {"stop": False}
    with util.Scratch() as d:
        util.write(d + "/s/a.fan", source)
        args = ["test", "t", "-t", str(t), "-n", str(n), "-p", d + "/s"] + options
        if record:
            os.mkdir(d + "/r")
            args += ["-r", d + "/r"]
        out = open(d + "/out", "w+b")
        got = bytearray()
        reader = None
        if pipe:
            fd, wr = os.pipe()
            lock = threading.Lock()

            def pump():
                while True:
                    data = os.read(fd, 1 << 16)
                    if not data: break
                    with lock: got.extend(data)
            reader = threading.Thread(target=pump, daemon=True)
            target = wr
        else: target = out
        p = None
        progress = {}

        def text():
            if not pipe: return open(d + "/out", "rb").read()
            with lock: return bytes(got)

        def look(conn):
            parts = bytes(conn.raw).split(b" ")[1].decode().strip("/").split("/")
            if len(parts) != 3: return
            with env.lock:
                if state["stop"]: return
                me, i, k = parts[0], int(parts[1]), int(parts[2])
                if me != "new": progress[me] = max(progress.get(me, 0), i)
                done = sum(progress.values())  # iterations finished for certain
                must = ["<%s %d start>\n" % (me, i) if i else "<new 0 start>\n"]
                if me != "new": must += ["<%s %d %d>\n" % (me, i, j) for j in range(k)] + ["<%s %d %d>\n" % (me, a, j) for a in range(max(0, i - 3), i) for j in range(calls)]
                end = time.monotonic() + (10 if pipe and not state.get("late") else 0)  # the other end of a pipe may still have to read it
                while True:
                    data = text().decode("utf-8", "replace")
                    missing = [m for m in must if m not in data]
                    blocks = data.count("--- PASS  ")
                    if (not missing and blocks >= done * calls) or time.monotonic() >= end: break
                    time.sleep(.01)
                if missing or blocks < done * calls: state["late"] = True
                rec = None
                if record and rng.random() < .2:
                    rec = 0
                    for f in os.listdir(d + "/r"):
                        try: rec += len(avro.decode(open(d + "/r/" + f, "rb").read()))
                        except avro.Bad: rec = None  # another thread is writing
                        if rec is None: break
                seen.append((parts, missing, blocks, done * calls, rec))
                if kill is not None and len(seen) > kill:
                    state["stop"] = True
                    p.kill()
        env.look = look
        with env.lock: p = cli.spawn(args, stdout=target)
        if pipe:
            os.close(wr)
            reader.start()
        r = cli.finish(p, 120, 40)
        env.s.take()
        env.look = None
        if reader:
            reader.join(30)
            os.close(fd)
        final = text().decode("utf-8", "replace")
        if not out.closed: out.close()
    what = "test t -t %d -n %d %s%s%s" % (t, n, options, " recording" if record else "", " into a pipe" if pipe else "")
    replay = {"source": source, "args": args, "out": final[-5000:]}
    if kill is None and not cli.over(ctx, r, replay): return
    for parts, missing, blocks, done, rec in seen:
        ctx.check(not missing, lambda: "%s: when the server got %s, these lines printed before were not visible: %r" % (what, "/".join(parts), missing), replay)
        ctx.check(blocks >= done, lambda: "%s: when the server got %s, the finished iterations had %d requests, but %d reports were visible" % (what, "/".join(parts), done, blocks), replay)
        if rec is not None: ctx.check(rec >= done, lambda: "%s: when the server got %s, the finished iterations had %d requests, but %d were recorded" % (what, "/".join(parts), done, rec), replay)
        if rec is not None: ctx.count("record_looks")
        ctx.seen((t, n, calls, tuple(parts), pipe, record), "%s: %s" % (what, parts), True)
    if kill is not None: ctx.count("killed_runs")
    ctx.count("looks", len(seen))
    ctx.count("lines_visible", sum(1 for s in seen if not s[1]))


def repl(ctx, rng, env):
    """One line at a time: the answer must come before the next line is given."""
    import select, subprocess
    lines = []
    for _ in range(rng.randint(3, 12)):
        k = rng.randint(0, 10 ** 6)
        lines.append(rng.choice([("%d" % k, "%d" % k), ("println(\"p%d\"); %d" % (k, k), "p%d\n%d" % (k, k)), ("let a = \"%d\"" % k, "%d" % k), ("print(\"%d\"); \"z\"" % k, "%dz" % k), ("[%d]" % k, "[Integer(%d)]" % k), ("length(\"abc\")", "3"), ("1 / 0", None), ("@", None)]))
    p = subprocess.Popen([B.TARGET + "/cli/debug/basjoofan"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=cli.clean_env())
    try:
        for text, want in lines:
            p.stdin.write(text.encode() + b"\n")
            p.stdin.flush()
            data, end = b"", time.monotonic() + 20
            while time.monotonic() < end and not (data.endswith(b"\n") if want is None else data.decode("utf-8", "replace") == want + "\n"):
                if select.select([p.stdout], [], [], 1)[0]:
                    chunk = os.read(p.stdout.fileno(), 65536)
                    if not chunk: break
                    data += chunk
            ok = data.endswith(b"\n") and (want is None or data.decode("utf-8", "replace") == want + "\n")
            ctx.check(ok, lambda: "the line %r of a session was answered with %r (expected %r) before the next one" % (text, data, want), {"lines": lines})
            ctx.count("lines")
            ctx.seen(("repl", text), text)
        p.stdin.close()
        p.wait(30)
    finally:
        p.kill()
        p.wait()
        p.stdout.close()


def directed(ctx, env, w, nw):
    import random
    rng = random.Random("%d:%d" % (ctx.seed, w))
    jobs = []
    for t, n, c in ((1, 30, 1), (1, 12, 3), (2, 20, 1), (4, 40, 2), (8, 40, 1), (3, 9, 4)):
        for options, record in (([], True), (["-s"], False)):
            for pipe in (False, True): jobs.append((t, n, c, options, record, None, pipe))
        jobs.append((t, n, c, [], False, n // 2, False))
    for i, j in enumerate(jobs):
        if i % nw == w: play(ctx, rng, env, *j)


def case(ctx, rng, env):
    if rng.random() < .25: return repl(ctx, rng, env)
    t, c = rng.choice([1, 1, 2, 3, 5, 8]), rng.randint(1, 4)
    n = t * rng.randint(1, 8)
    play(ctx, rng, env, t, n, c, rng.choice([[], ["-s"]]), rng.random() < .5, rng.choice([None, None, None, rng.randint(0, n)]), rng.random() < .4)
