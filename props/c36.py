"""C36: a command touches nothing but what it was told to: its record files and the hosts of the requests it calls."""
import hashlib, os, random, stat
from mon import avro, build as B, cli, dictionary, httpd, util, wire

RULE = ("runs, evals and sessions of every kind (succeeding, failing, uploading, recording over older and foreign files, named and not, with a prefix) happen in a scratch world whose every file (content, mode, time) is compared before and after, with proxies announced in the environment and decoy servers "
        "on the ports declared by requests that are not called; only this run's record files may appear or change, wholly replaced, and only the called requests' servers may be contacted. Non-trivial: a distinct command and world.")
FLOOR = 150
BUDGET = {"quick": 15, "thorough": 180}


def build(): B.cli()


class Env: pass


def setup(ctx):
    e = Env()
    e.s = httpd.Server(lambda c: answer(e, c))
    e.decoy = httpd.Server(httpd.respond(httpd.OK))
    e.bad = False
    e.rng = random.Random(ctx.worker)
    return e


def answer(e, conn):
    conn.request()
    url = "http://127.0.0.1:%d/moved" % e.decoy.port
    conn.send(b"HTTP/1.1 200" if e.bad else wire.response(body=b'{"file": "/tmp/x", "include": "http://127.0.0.1:%d/", "a": 1}' % e.decoy.port,
                                                          headers=e.rng.sample([("Location", url), ("location", url), ("Refresh", "0; url=" + url), ("Content-Location", url), ("Link", "<%s>; rel=preload" % url), ("Retry-After", "0"), ("WWW-Authenticate", "Basic realm=\"x\""),
                                                                                ("Set-Cookie", "a=b"), ("Alt-Svc", "h2=\":%d\"" % e.decoy.port), ("Content-Disposition", "attachment; filename=\"got.bin\""), ("Upgrade", "h2c"), ("Strict-Transport-Security", "max-age=1")], 5) + [("Location", url)] * (conn.index % 2),
                                                          status=e.rng.choice([200, 201, 202, 204, 300, 301, 302, 303, 304, 305, 306, 307, 308, 401, 403, 407, 408, 421, 425, 426, 429, 500, 502, 503, 511])))
    conn.fin()
    conn.drain()


def teardown(e):
    e.s.close()
    e.decoy.close()


def snapshot(root):
    out = {}
    for base, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(base, n)
            st = os.lstat(p)
            if stat.S_ISDIR(st.st_mode): out[p] = ("dir", st.st_mode)
            elif stat.S_ISLNK(st.st_mode): out[p] = ("link", os.readlink(p))
            else: out[p] = ("file", st.st_mode, st.st_mtime_ns, st.st_ino, hashlib.sha1(open(p, "rb").read()).hexdigest())
    return out


NAMES = sorted({w for w in dictionary.strings() if w.strip(".") and "/" not in w and "\0" not in w and len(w.encode()) < 100 and w != "up.bin"} | {"%06d" % i for i in range(3, 12)} | {"000000.tmp", "000000~", ".000000", "tmp", "temp", "record", "records", "records.avro", "000000.avro", "lock", ".lock", "pid", "core", "log", "a.log", "stats.json", "old.d/x", "000000.d/y"})


def case(ctx, rng, env):
    env.bad = rng.random() < .2
    how = rng.choice(["named", "named", "all", "eval", "repl", "unknown", "refused"])
    with util.Scratch() as d:
        up = os.urandom(rng.choice([0, 10, 5000, 5000]) if rng.random() < .9 else rng.choice([20000, 70000, 300000, 1100000, 2200000]))
        util.write(d + "/w/up.bin", up)
        util.write(d + "/w/notes.txt", "keep")
        os.makedirs(d + "/home/.config")
        os.makedirs(d + "/t")
        for i in range(rng.randint(0, 3)): util.write(d + "/w/%s" % rng.choice(["a.json", "000000", "basjoofan.toml", ".basjoofan", "b/c.fan.bak", "0"]), "x%d" % i)
        reqs = ("request q `GET http://127.0.0.1:%d/a`[status > 0];\nrequest f `POST http://127.0.0.1:%d/up\nContent-Type: multipart/form-data\n\nf: @%s/w/up.bin`;\n"
                "request never `GET http://127.0.0.1:%d/never`;\nrequest n2 `POST http://127.0.0.1:%d/never\nContent-Type: multipart/form-data\n\nf: @%s/w/notes.txt`;\n") % (env.s.port, env.s.port, d, env.decoy.port, env.decoy.port, d)
        body = rng.choice(["q()", "f()", "q(); f()", "let r = q(); println(\"{x}\", r.status)", "println(\"/w/notes.txt\")", "q(); 1 / 0", "if (false) { never() } else { q() }", "false && never(); q()"])
        fails, sends = "1 / 0" in body, [x for x in ("q", "f") if x + "()" in body]
        world = reqs + "test t { %s }\ntest u { %s }\n" % (body, body)
        if how == "refused": world += "let = 1"
        util.write(d + "/s/a.fan", world)
        record = how in ("named", "all", "unknown", "refused") and rng.random() < .7
        pod = rng.choice(["", "", "pod-"])
        foreign = []
        if record:
            os.mkdir(d + "/r")
            for n in rng.sample(["000000", "000001", "000002", "000009", "0", "x.txt", "pod-000000", "000000.bak", "1000000"], rng.randint(0, 5)): util.write(d + "/r/" + n, rng.choice([b"", b"old", os.urandom(30000)]) if rng.random() < .9 else bytes(rng.choice([70000, 300000, 1 << 20, 3 << 20])))
            # what else may lie there: named as something the code knows, temporary, of a run of more threads
            for n in rng.sample(NAMES, rng.randint(0, 4)):
                if not os.path.exists(d + "/r/" + n): util.write(d + "/r/" + n, "mine")
        for n in rng.sample(NAMES, rng.randint(0, 3)):
            for at in ("/w/", "/t/", "/home/"):
                if rng.random() < .5 and not os.path.exists(d + at + n): util.write(d + at + n, "mine")
        t, n = rng.choice([(1, 1), (1, 3), (2, 4), (3, 2)])
        before = snapshot(d)
        envs = {"HOME": d + "/home", "TMPDIR": d + "/t", "http_proxy": "http://127.0.0.1:%d" % env.decoy.port, "HTTP_PROXY": "http://127.0.0.1:%d" % env.decoy.port, "https_proxy": "http://127.0.0.1:%d" % env.decoy.port, "ALL_PROXY": "http://127.0.0.1:%d" % env.decoy.port, "XDG_CACHE_HOME": d + "/home"}
        if pod: envs["POD"] = pod
        stdin = None
        if how == "eval": args = ["eval", reqs.replace("\n", "\n") + body]
        elif how == "repl":
            args = []
            stdin = "".join(x + "`%s;\n" % y for x, y in ()) + "request q `GET http://127.0.0.1:%d/a`\n" % env.s.port + "request never `GET http://127.0.0.1:%d/never`\n" % env.decoy.port + (body if "f()" not in body else "q()") + "\n"
            if "f()" in body: sends, body = ["q"], "q()"
        else:
            args = ["test"] + (["t"] if how in ("named", "refused") else ["nope"] if how == "unknown" else []) + ["-p", d + "/s"] + (["-r", d + "/r"] if record else []) + (["-t", str(t), "-n", str(n)] if how == "named" else []) + rng.choice([[], ["-s"]])
        r = cli.run(args, cwd=d + "/w", env=envs, stdin=stdin, timeout=60)
        conns, decoy = env.s.take(), env.decoy.take()
        after = snapshot(d)
        records = {f: open(d + "/r/" + f, "rb").read() for f in os.listdir(d + "/r") if os.path.isfile(d + "/r/" + f)} if record else {}
    what = "%s of %r%s%s" % (how, body, " recording" if record else "", " with POD" if pod else "")
    replay = {"args": args, "stdin": stdin, "source": world, "out": r.text[-3000:], "err": r.err[-1000:].decode("utf-8", "replace")}
    if not cli.over(ctx, r, replay): return
    runs = {"named": min(n, t * 1 if fails else n), "all": 2, "eval": 1, "repl": 1}.get(how, 0)
    if how == "named" and fails: runs = min(t, n)
    want = runs * len(sends) if how != "named" or not fails else runs * len(sends)
    ctx.check(len(conns) == want, lambda: "%s contacted the server %d times, expected %d" % (what, len(conns), want), replay)
    ctx.check(not decoy, lambda: "%s contacted a server none of the called requests names: %r" % (what, bytes(decoy[0].raw[:200])), replay)
    mine = {"named": ["%s%06d" % (pod, i) for i in range(t)], "all": ["%s%06d" % (pod, i) for i in range(2)]}.get(how, []) if record else []
    changed = sorted(p for p in before.keys() | after.keys() if before.get(p) != after.get(p))
    allowed = {d + "/r/" + m for m in mine}
    ctx.check(set(changed) <= allowed, lambda: "%s changed %r" % (what, [x.replace(d, "") for x in changed if x not in allowed]), replay)
    for m in mine:
        try: recs = avro.decode(records.get(m, b""))
        except avro.Bad as e: recs = e
        ctx.check(isinstance(recs, list) and all(x["thread"] == int(m[len(pod):]) for x in recs), lambda: "%s: record file %s is not this run's: %r" % (what, m, recs), replay)
    if mine:
        total = sum(len(avro.decode(records[m])) for m in mine)
        ctx.check(total == want, lambda: "%s recorded %d requests, made %d" % (what, total, want), replay)
    ctx.count("files_compared", len(before))
    ctx.count("record_files_replaced", len([1 for m in mine if d + "/r/" + m in before]))
    ctx.count(how)
    ctx.seen((how, body, record, pod, t, n, env.bad, tuple(sorted(x.replace(d, "") for x in before)), tuple(args[-3:])), what)
