"""C37: what a server sends is data, never code."""
import os, re
from mon import build as B, cli, dictionary, httpd, model, texts, util, wire

RULE = ("servers answer with the language's own constructs (native calls, calls of the script's requests, bindings, placeholders, request and test definitions, operators, alone, nested in JSON, in headers and in the reason); the monitor looks for every possible effect: "
        "a connection that no call of the script asked for, a printed line that the script did not print, a binding or request that is no longer what it was, a value that had to be computed. Non-trivial: a distinct hostile text in its place.")
ASSUMPTIONS = ["json of such a body may be absent, null, or contain the plain values among its parts, but nothing that had to be looked up or computed"]
FLOOR = 600
BUDGET = {"quick": 18, "thorough": 240}
SECRET = "s3cr3t"


def build():
    B.cli()
    B.probe()


class Env: pass


def setup(ctx):
    from mon import probe
    e = Env()
    e.p = probe.Probe()
    e.answers = {}

    def answer(conn):
        conn.request()
        path = bytes(conn.raw[:200]).split(b" ")[1].decode("latin-1")
        conn.send(e.answers.get(path.split("/")[1], wire.response(body=b"plain")))
        conn.fin()
        conn.drain()
    e.s = httpd.Server(answer, backlog=512)
    e.trap = httpd.Server(httpd.respond(wire.response(body=b"trap")))
    return e


def teardown(e):
    e.p.stop()
    e.s.close()
    e.trap.close()


def calls(env, q='"'):
    """Code whose evaluation would show: (text, marks that nothing may contain)."""
    return [
        ("println(%sOWNED%s)" % (q, q), []), ("print(%sOWNED%s)" % (q, q), []), ("victim()", []), ("ask()", []), ("later()", []),
        ("let secret = 1", []), ("let json = 7", []), ("let status = 201", []), ("let body = 1;", []), ("let ask = 1", []), ("secret", [SECRET]), ("[secret]", [SECRET]), ("-number", ["987654"]), ("-(0 - 987654)", ["987654"]), ("number", ["987654"]), ("list", ["11311"]), ("list[0]", ["11311"]), ("map.k", ["22622"]),
        ("{%sk%s: secret}" % (q, q), [SECRET]), ("{secret: 1}", [SECRET]), ("{secret}", [SECRET]), ("{ secret }", [SECRET]), ("%s{secret}%s" % (q, q), [SECRET]), ("[%s{secret}%s, {%sa%s: %s{secret}%s}]" % ((q,) * 6), [SECRET]),
        ("1234 * 5678", ["7006652"]), ("[1200000 + 3]", ["1200003"]), ("%sOW%s + %sNED%s" % (q, q, q, q), ["OWNED"]), ("{%sa%s: 4000000 + 2}" % (q, q), ["4000002"]), ("(4000000 + 2)", ["4000002"]), ("-(4000000 + 2)", ["4000002"]), ("77777 || victim()", []), ("false || victim()", []), ("true && victim()", []), ("1 << 20", ["1048576"]),
        ("length(%sabcdefghijklm%s)" % (q, q), ["13"]), ("[length(%sabcdefghijklm%s)]" % (q, q), ["13"]), ("append([1], 55555)", []), ("format(%s<{a}>%s, secret)" % (q, q), [SECRET, "<s"]), ("format(%s<{a}>%s, %sQ%s)" % ((q,) * 4), ["<Q>"]), ("[format(%s<{a}>%s, %sQ%s)]" % ((q,) * 4), ["<Q>"]),
        ("if (true) { println(%sOWNED%s) } else { victim() }" % (q, q), []), ("if (true) { 31313 }", []), ("[1, victim(), println(%sOWNED%s)]" % (q, q), []), ("{%sa%s: victim()}" % (q, q), []), ("{println(%sOWNED%s): 1}" % (q, q), []), ("[[[{%sa%s: [ask()]}]]]" % (q, q), []), ("-victim()", []), ("!victim()", []),
        ("{%sa%s: let secret = 5}" % (q, q), []), ("[let secret = 5]", []), ("let secret = victim()", []), ("[1][victim()]", []), ("victim().body", []), ("1; victim(); 2", []), ("1 victim() 2", []), ("println(secret)", []), ("json", []), ("ask().json", []), ("victim().json.secret", []), ("1 / 0", []), ("9223372036854775807 + 1", ["9223372036854775808", "-9223372036854775808"]),
        ("request ask `GET http://127.0.0.1:%d/redefined`" % env.trap.port, []), ("request victim `GET http://127.0.0.1:%d/`[status == 200]" % env.trap.port, []), ("request fresh `GET http://127.0.0.1:%d/`; fresh()" % env.trap.port, []), ("request ask `GET http://127.0.0.1:%d/redefined` {%sid%s: 1}" % (env.trap.port, q, q), []),
        ("test t { println(%sOWNED%s) victim() }" % (q, q), []), ("test u { victim() }", []), ("{%sid%s: 1} request ask `GET http://127.0.0.1:%d/redefined`" % (q, q, env.trap.port), []), ("{%sid%s: 1} victim()" % (q, q), []), ("{%sid%s: 1}; println(%sOWNED%s)" % ((q,) * 4), []),
        ("http://127.0.0.1:%d/url" % env.trap.port, []), ("[%shttp://127.0.0.1:%d/url%s]" % (q, env.trap.port, q), []), ("${secret}", [SECRET]), ("{{secret}}", [SECRET]), ("<!--#include virtual=%s/etc/passwd%s-->" % (q, q), ["root:"]), ("@/etc/passwd", ["root:"]), ("{%s$ref%s: %s/etc/passwd%s}" % ((q,) * 4), ["root:"]), ("`rm -rf {secret}`", [SECRET]), ("exit", []), ("\nexit\n", [])]


FIELDS = ["version", "status", "reason", "headers", "body", "json"]
OF_FIELDS = ["HTTP/1.1", "200", "OK", "Content-Type", "Content-Length"]  # what their values would show, in json
MOVED = [201, 300, 301, 302, 303, 305, 306, 307, 308, 401, 407, 421, 426, 503]


def hostile(env, text, place, rng):
    """The response carrying the text, and whether the text is its body."""
    if place == "body": return wire.response(headers=[("Content-Type", rng.choice(["application/json", "text/plain", "text/html"]))], body=text)
    line = text.replace("\n", " ").strip()
    if place == "header": return wire.response(headers=[("X-Code", line), ("secret", line), ("json", line)], body=b"plain")
    if place == "name": return wire.response(headers=[("{secret}", "v"), (line.replace(":", ""), "v")], body=b"plain")
    if place == "reason": return wire.response(reason=line, body=b"plain")
    if place == "location": return wire.response(status=rng.choice(MOVED), reason="Found", headers=[(rng.choice(["Location", "location", "LOCATION", "Refresh", "Content-Location", "URI"]), "http://127.0.0.1:%d/%s" % (env.trap.port, line.replace(" ", "+"))), ("Set-Cookie", line)], body=b"plain")
    return wire.response(headers=[("A", line)], body='{"a": ' + text + '}')


def play(ctx, env, rng, todo):
    """todo: [(text, marks, place)]. One session: after every call everything the script had is read again."""
    port = env.s.port
    setup_lines = ["let secret = \"%s\"; let number = 987654; let list = [11311]; let map = {\"k\": 22622}; let ask = 3" % SECRET,
                   "request victim `GET http://127.0.0.1:%d/victim/{secret}`" % env.trap.port, "request later `GET http://127.0.0.1:%d/later`" % env.trap.port]
    lines = list(setup_lines)
    for i, (text, marks, place) in enumerate(todo):
        env.answers["x%d" % i] = hostile(env, text, place, rng)
        lines.append("request ask `GET http://127.0.0.1:%d/x%d/{secret}`[status > 0, json != 5, json.a != 6, body != 7, secret != 8, headers != 9]\nlet got%d = ask()" % (port, i, i))
        lines.append("println(\"<{a}{b}{c}{d}{e}>\", secret, number, list, map, ask); [secret, number, list, map, ask]")
        lines.append("println(\"[{a}]\", got%d.body)" % i)
    steps, why = util.session(env.p, lines, idle=None, cpu=60)
    conns, traps = env.s.take(), env.trap.take()
    replay = {"lines": lines, "texts": todo, "traps": [repr(bytes(c.raw[:300])) for c in traps]}
    if not ctx.check(steps is not None, lambda: "%r: %s" % ([t for t, _, _ in todo], why), replay): return
    ctx.check(not traps, lambda: "after answers %r the client connected to a server no call names: %r" % ([t for t, _, _ in todo], [bytes(c.raw[:200]) for c in traps]), replay)
    ctx.check(len(conns) == len(todo), lambda: "%d calls made %d connections, answers were %r" % (len(todo), len(conns), [t for t, _, _ in todo]), replay)
    for c, i in zip(conns, range(len(todo))):
        ctx.check(bytes(c.raw).startswith(b"GET /x%d/%s HTTP" % (i, SECRET.encode())), lambda: "after answers %r the request sent was %r" % ([t for t, _, _ in todo[:i]], bytes(c.raw[:200])), replay)
    for i, (text, marks, place) in enumerate(todo):
        a, b, c = steps[len(setup_lines) + 3 * i:len(setup_lines) + 3 * i + 3]
        what = "%r sent as %s" % (text, place)
        ctx.check("ok" in a and a.get("out", "") == "", lambda: "%s: the call gave %r" % (what, {k: str(v)[:300] for k, v in a.items()}), replay)
        want = "<%s987654[Integer(11311)]{\"k\": Integer(22622)}3>\n" % SECRET
        ctx.check(b.get("out") == want and "ok" in b, lambda: "%s: afterwards the script's variables read %r" % (what, b), replay)
        v = model.read_debug(a["ok"])
        if place == "body": ctx.check(c.get("out") == "[%s]\n" % text, lambda: "%s: the body reads %r" % (what, c.get("out")), replay)
        computed = repr(v.get("json")) if place in ("body", "wrapped") else repr(v)
        for m in marks:
            if m in text: continue
            ctx.check(not re.search(r"(?<![\w.])%s(?!\w)" % re.escape(m), computed), lambda: "%s: it was evaluated: %s" % (what, computed[:400]), replay)
        for k in v: ctx.check(k in ("version", "status", "reason", "headers", "body", "json"), lambda: "%s: the response got a field %r" % (what, k), replay)
        ctx.check(v["status"] in [200] + MOVED, lambda: "%s: the status is %r" % (what, v["status"]), replay)
        shown = a["records"][0]["display"]
        ctx.check(len(a["records"]) == 1 and "=== TEST  ask" in shown, lambda: "%s: records %r" % (what, a["records"]), replay)
        ctx.count("bodies" if place in ("body", "wrapped") else "elsewhere")
        ctx.seen((text, place), what)


def command(ctx, env, rng, todo):
    """The same through the real command: two tests, an iteration after the other."""
    for i, (text, marks, place) in enumerate(todo): env.answers["y%d" % i] = hostile(env, text, place, rng)
    n = len(todo)
    source = ("let secret = \"%s\"\nrequest victim `GET http://127.0.0.1:%d/victim`\n" % (SECRET, env.trap.port) +
              "".join("request q%d `GET http://127.0.0.1:%d/y%d/{secret}`[status > 0]\n" % (i, env.s.port, i) for i in range(n)) +
              "test t { %s }\ntest u { victim() }\n" % " ".join("let r = q%d(); println(\"<{a} {b}>\", secret, r.status);" % i for i in range(n)))
    threads, rounds = rng.choice([(1, 2), (2, 2), (1, 1)])
    with util.Scratch() as d:
        util.write(d + "/s/a.fan", source)
        os.mkdir(d + "/r")
        r = cli.run(["test", "t", "-t", str(threads), "-n", str(rounds), "-p", d + "/s", "-r", d + "/r"], timeout=90)
        files = sorted(os.listdir(d + "/r"))
    conns, traps = env.s.take(), env.trap.take()
    replay = {"source": source, "texts": todo, "out": r.text[-4000:], "err": r.err[-2000:].decode("utf-8", "replace"), "traps": [repr(bytes(c.raw[:300])) for c in traps]}
    if not cli.over(ctx, r, replay): return
    names = [t for t, _, _ in todo]
    ctx.check(r.code == 0, lambda: "after answers %r the run ended with %r" % (names, r.code), replay)
    ctx.check(not traps, lambda: "after answers %r the run connected to a server no call names: %r" % (names, [bytes(c.raw[:200]) for c in traps]), replay)
    ctx.check(len(conns) == n * rounds, lambda: "%d calls made %d connections; answers %r" % (n * rounds, len(conns), names), replay)
    lines = [l for l in r.text.split("\n") if l and not l.startswith(("=== TEST  q", "--- PASS  q", "--- FAIL  q", "status > 0 => "))]
    want = sorted("<%s %d>" % (SECRET, int(env.answers["y%d" % i].split(b" ")[1])) for i in range(n) for _ in range(rounds))
    ctx.check(sorted(lines) == want, lambda: "after answers %r the run printed %r" % (names, [l for l in lines if l not in want][:5]), replay)
    ctx.check(len(files) == threads, lambda: "record files %r" % files, replay)
    ctx.count("runs")
    for t, _, p in todo: ctx.seen(("run", t, p), None)


PLACES = ["body", "body", "body", "wrapped", "header", "name", "reason", "location"]


def directed(ctx, env, w, nw):
    import random
    rng = random.Random("%d:%d" % (ctx.seed, w))
    todo = [(t, m, p) for t, m in calls(env) for p in ("body", "wrapped", "header", "reason")]
    todo += [(t + tail, m, "body") for t, m in calls(env) for tail in ("\n", ";", " null", " {}", "\n\n[1]")]
    todo += [(head + t, m, "body") for t, m in calls(env) for head in ("{} ", "[]\n", "null ", "\ufeff", "1;", "while(1);", ")]}',\n")]
    todo += [(s % f, OF_FIELDS, p) for f in FIELDS for s in ("%s", "[%s]", "{\"a\": %s}", "%s;", "(%s)", "{%s: 1}") for p in ("body", "wrapped")]
    todo = [x for i, x in enumerate(todo) if i % nw == w]
    for i in range(0, len(todo), 12): play(ctx, env, rng, todo[i:i + 12])


def case(ctx, rng, env):
    pool = calls(env)
    todo = []
    for _ in range(rng.randint(2, 8)):
        t, m = rng.choice(pool)
        r = rng.random()
        if r < .25: t = "[%s, %s]" % (rng.choice(["1", "\"a\"", "null", "{}"]), t)
        elif r < .45: t = "{\"%s\": %s}" % (rng.choice(["a", "id", "json", "secret", "victim"]), t)
        elif r < .55: t = "%s%s%s" % (rng.choice(["", "[", "{\"a\": ["]), t, rng.choice(["", ";", "\n"]))
        elif r < .7:
            o, mo = rng.choice(pool)
            t, m = "%s%s%s" % (t, rng.choice([" ", ";", "\n", "; "]), o), m + mo
        elif r < .8:
            words = dictionary.words()
            t, m = rng.choice(words) + rng.choice(["(\"OWNED\")", "()", " = 5", " secret", ": secret", "(victim())"]) if words else t, []
        todo.append((t, m, rng.choice(PLACES)))
    if rng.random() < .3: command(ctx, env, rng, todo)
    else: play(ctx, env, rng, todo)
