"""C40: what concurrent threads print comes out whole, in order, once."""
import os, re, threading, time
from mon import build as B, cli, httpd, util, wire

RULE = ("threads print pieces framed by their own identity (0 bytes to 200 kB, with and without line breaks, by print and println, between requests with reports, ending in errors) at the same moments, which the server brings about; standard output goes to a file, a pipe, or a pipe read slowly in small parts. "
        "The whole output must be a sequence of whole pieces and report blocks, each thread's in its order, each once. Non-trivial: a distinct run with at least two threads whose pieces alternated.")
FLOOR = 60
BUDGET = {"quick": 18, "thorough": 240}
BLOCK = re.compile(rb"=== TEST  (q|w)\nstatus == 200 => 200 == 200 => true\n(?:body != 1 => ([^\n]*) != 1 => true\n)?--- PASS  (q|w) \(\d+(?:\.\d+)?(?:ns|\xc2\xb5s|ms|s)\)\n")
HEAD = re.compile(rb"\x02(\d+)\.(\d+)\.(\d+):")
ERROR = b"ident:broken not found\n"


def build(): B.cli()


class Env: pass


def setup(ctx):
    e = Env()
    e.cond, e.waiting, e.round, e.together = threading.Condition(), 0, 0, 1

    def answer(conn):
        conn.request()
        with e.cond:
            e.waiting += 1
            if e.waiting >= e.together:
                e.waiting, e.round = 0, e.round + 1
                e.cond.notify_all()
            else:
                r, end = e.round, time.monotonic() + .05
                while e.round == r:
                    left = end - time.monotonic()
                    if left <= 0:
                        e.waiting, e.round = 0, e.round + 1
                        e.cond.notify_all()
                        break
                    e.cond.wait(left)
        conn.send(wire.response(body=b"%d" % conn.index))
        conn.fin()
        conn.drain()
    e.s = httpd.Server(answer, backlog=1024)
    return e


def teardown(e): e.s.close()


def drain(fd, got, slow):
    size = 700 if slow else 1 << 16
    while True:
        data = os.read(fd, size)
        if not data: break
        got.extend(data)
        if slow and len(got) < 300000: time.sleep(.0005)


def play(ctx, env, t, n, pieces, out, fail=None, options=(), unnamed=False):
    """pieces: per iteration, (size or text, newline after, a request before). fail: the iteration that ends in an error."""
    port = env.s.port
    env.together = t
    payload = lambda size: size if isinstance(size, str) else ("abcdefgh\n" if size % 2 else "é0123456") * (size // 8)
    source = ("let i = 0; let me = \"new\"\nrequest q `GET http://127.0.0.1:%d/q`[status == 200]\nrequest w `GET http://127.0.0.1:%d/w/{me}`[status == 200, body != 1]\n" % (port, port) +
              "".join("let p%d = \"%s\"\n" % (k, payload(s)) for k, (s, _, _) in enumerate(pieces)))
    body = "if (me == \"new\") { let me = q().body } "
    for k, (s, newline, request) in enumerate(pieces):
        if request: body += "w(); "
        body += "print%s(\"\x02{me}.{i}.%d:{p}:{me}.{i}.%d\x03\", me, i, p%d, me, i); " % ("ln" if newline else "", k, k, k)
    if fail is not None: body += "if (i == %d) { broken } " % fail
    body += "let i = i + 1 "
    if unnamed: source += "".join("test t%d { %s }\n" % (j, body) for j in range(t))
    else: source += "test t { %s }\n" % body
    with util.Scratch() as d:
        util.write(d + "/s/a.fan", source)
        args = ["test", "-p", d + "/s"] + ([] if unnamed else ["t", "-t", str(t), "-n", str(t * n)]) + list(options)
        got = bytearray()
        if out == "file":
            r = cli.run(args, timeout=150, idle=60)
            data = r.out
        else:
            fd, wr = os.pipe()
            p = cli.spawn(args, stdout=wr)
            os.close(wr)
            reader = threading.Thread(target=drain, args=(fd, got, out == "slow"), daemon=True)
            reader.start()
            r = cli.finish(p, 150, 60)
            reader.join(60)
            os.close(fd)
            data = bytes(got)
    env.s.take()
    what = "test -t %d -n %d, %d pieces an iteration to a %s" % (t, t * n, len(pieces), out)
    replay = {"source": source[:3000], "args": args, "err": r.err[-1500:].decode("utf-8", "replace"), "out": repr(data[:6000])}
    if not cli.over(ctx, r, replay): return
    ctx.check(r.code == 0, lambda: "%s: exit %r" % (what, r.code), replay)
    pos, progress, blocks, errors, turns, last = 0, {}, 0, 0, 0, None

    def torn(why): ctx.violation("%s: at byte %d of the output %s: %r" % (what, pos, why, bytes(data[max(0, pos - 120):pos + 200])), replay)
    while pos < len(data):
        m = HEAD.match(data, pos)
        if m:
            me, i, k = (int(x) for x in m.groups())
            want = m[0] + payload(pieces[k][0]).encode() + b":%d.%d.%d\x03" % (me, i, k) + (b"\n" if pieces[k][1] else b"") if k < len(pieces) else b"?"
            if data[pos:pos + len(want)] != want: return torn("a piece is not whole")
            nxt = progress.get(me, (0, 0))
            if (i, k) != nxt: return torn("the piece %r of thread %d comes instead of %r" % ((i, k), me, nxt))
            progress[me] = (i, k + 1) if k + 1 < len(pieces) else (i + 1, 0)
            pos += len(want)
            turns += last not in (None, me)
            last = me
            continue
        m = BLOCK.match(data, pos)
        if m:
            if m[1] != m[3]: return torn("a report is not whole")
            blocks += 1
            pos = m.end()
            continue
        if fail is not None and data.startswith(ERROR, pos):
            errors += 1
            pos += len(ERROR)
            continue
        if "-s" in options and re.fullmatch(rb"(?:[qw] count=\d+ +sum=\d+ +avg=\d+ +max=\d+ +min=\d+\n)+", data[pos:].replace(b"  ", b" ")): break
        return torn("something else than a whole piece stands")
    rounds = 1 if unnamed else n if fail is None else min(n, fail + 1)
    ctx.check(len(progress) == t and all(v == (rounds, 0) for v in progress.values()), lambda: "%s: the threads printed up to %r, expected %d iterations each" % (what, progress, rounds), replay)
    expect = t * (1 + rounds * sum(1 for p in pieces if p[2]))
    ctx.check(blocks == expect, lambda: "%s: %d reports, expected %d" % (what, blocks, expect), replay)
    ctx.check(errors == (t if fail is not None and fail < n else 0), lambda: "%s: %d errors" % (what, errors), replay)
    ctx.count("pieces", sum(i * len(pieces) for i, _ in progress.values()))
    ctx.count("bytes", len(data))
    ctx.count("alternations", turns)
    ctx.peak("threads", t)
    ctx.seen((t, n, str(pieces), out, fail, unnamed), what, t > 1 and turns >= t)


def directed(ctx, env, w, nw):
    jobs = []
    for out in ("file", "pipe", "slow"):
        for size in (0, 1, 100, 1023, 1024, 1025, 4096, 8192, 65536, 200000):
            n = 40 if size < 5000 else 6
            jobs.append((8, n, [(size, True, False)] * 3, out))
            jobs.append((6, n, [(size, False, False), (size + 1, True, True)], out))
        jobs.append((12, 30, [("", True, True), ("a\nb\n\nc", True, False), (64, False, False)], out, None, ["-s"]))
        jobs.append((8, 10, [(300, True, False), (2000, False, True)], out, 5))
        jobs.append((10, 1, [(300, True, False), (20000, True, True), (3000, False, False)], out, None, [], True))
    for i, j in enumerate(jobs):
        if i % nw == w: play(ctx, env, *j)


def case(ctx, rng, env):
    t = rng.choice([2, 2, 3, 4, 6, 8, 16])
    pieces = [(rng.choice([0, 1, 10, 100, 1000, 1024, 5000, 8193, 70000, "x\ny", "\n", "tab\t"]), rng.random() < .6, rng.random() < .4) for _ in range(rng.randint(1, 6))]
    weight = sum(s if isinstance(s, int) else 5 for s, _, _ in pieces) + 50 * len(pieces)
    n = max(1, min(rng.choice([3, 10, 40, 100]), 3000000 // (weight * t)))
    unnamed = rng.random() < .2
    play(ctx, env, t, 1 if unnamed else n, pieces, rng.choice(["file", "pipe", "slow"]), None if unnamed or rng.random() < .7 else rng.randint(0, n), ["-s"] if rng.random() < .3 else [], unnamed)
