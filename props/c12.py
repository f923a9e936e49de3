"""C12: a JSON body is available as the equal value under json."""
import json
from mon import build as B, dictionary, gen, httpd, model, probe, texts, util, wire

RULE = ("JSON documents generated as values (all kinds, boundary numbers, many kinds of text, wide and up to 100 levels deep) and rendered with random JSON whitespace, and bodies that are certainly no document (truncated documents, HTML, "
        "binary-like text), are sent by a server; the json member of the response value, its members, the operand an assertion on json shows, and the other fields are compared with what was rendered. Non-trivial: a distinct body.")
ASSUMPTIONS = ["member names are distinct", "strings with escapes, numbers with exponents and integers that do not fit 64 bits are listed known findings (one fixed input each) and not generated otherwise",
               "bodies that are neither JSON nor unparseable (such as a bare word) are not judged"]
FLOOR = 300
BUDGET = {"quick": 20, "thorough": 300}
WS = ["", "", "", " ", "\n", "\t", "\r\n", "   ", "\n    "]


def build(): B.probe()


class Env: pass


def setup(ctx):
    e = Env()
    e.p = probe.Probe()
    e.bodies, e.n = {}, 0

    def body(conn):
        n = int(bytes(conn.raw[:60]).split(b" ", 2)[1][1:])
        status, kind = around(n)
        return wire.response(status=status, headers=[("Content-Type", kind), ("X-A", "b")], body=e.bodies[n])
    e.s = httpd.Server(httpd.respond(body))
    return e


def teardown(e):
    e.p.stop()
    e.s.close()


def around(n):
    """The status and content type of answer n: they do not matter."""
    if n % 2: return 200, "application/json"
    n //= 2
    return (200, 201, 299, 300, 302, 400, 401, 404, 418, 499, 500, 503, 599, 600, 999, 203, 100 + n * 7 % 900)[n % 17], KINDS[n // 3 % len(KINDS)]


KINDS = ["application/json", "application/json; charset=utf-8", "text/plain", "text/html; charset=utf-8", "application/problem+json", "application/octet-stream", "text/json", "application/xml", "application/x-www-form-urlencoded", "multipart/form-data", "image/png", "", "json", "APPLICATION/JSON"]


class Number:
    """A number with its JSON spelling."""

    def __init__(self, spelling):
        self.spelling = spelling
        self.value = float(spelling) if any(c in spelling for c in ".eE") else int(spelling)


def plain(v):
    if isinstance(v, Number): return v.value
    if isinstance(v, list): return [plain(x) for x in v]
    if isinstance(v, dict): return {k: plain(x) for k, x in v.items()}
    return v


def render(v, ws=lambda: ""):
    if isinstance(v, Number): return v.spelling
    if v is None: return "null"
    if isinstance(v, bool): return "true" if v else "false"
    if isinstance(v, str): return '"%s"' % v
    if isinstance(v, list): return "[" + ws() + (ws() + "," + ws()).join(render(x, ws) for x in v) + ws() + "]"
    return "{" + ws() + (ws() + "," + ws()).join('"%s"' % k + ws() + ":" + ws() + render(x, ws) for k, x in v.items()) + ws() + "}"


def number(rng):
    r = rng.random()
    if r < .3: s = str(rng.choice(gen.INTS))
    elif r < .5: s = str(rng.randint(-1000, 1000))
    elif r < .6: s = str(rng.getrandbits(rng.randint(1, 63)) * rng.choice([1, -1]))
    elif r < .8: s = "%s%d.%0*d" % (rng.choice(["", "-"]), rng.choice([0, 0, 1, 12, 99999, rng.getrandbits(50)]), rng.randint(1, 18), rng.randint(0, 9))
    elif r < .9: s = rng.choice(["0", "-0", "0.0", "-0.0", "1.0", "-1.0", "0.1", "0.10", "10.50", "123456789.123456789", "-0.000001", "0.30000000000000004", "9007199254740993", "9007199254740993.0", "1.7976931348623157" + "0" * 20, "9223372036854775807", "-9223372036854775807"])
    else: s = "%d.%d" % (rng.getrandbits(rng.randint(1, 60)), rng.getrandbits(rng.randint(1, 60)))
    n = Number(s.lstrip("+"))
    return n if isinstance(n.value, float) or abs(n.value) < 1 << 63 else Number("1")


def string(rng, big=.04):
    r = rng.random()
    if r < .3: return rng.choice(["", "a", "true", "null", "1", "-1.5", "{}", "[", "]", "{a}", "}", "a:b", ",", " ", "  x  ", "'", "`", "//", "# x", "é日😀", "/", "<b>", "request", "let x = 1", "%s", "\u2028", "\x7f", "\ufeff", "a`b", "json", "x y z"])
    if r < .3 + big: return texts.chars(rng, rng.choice(dictionary.sizes(20000)), "abc é")
    return texts.chars(rng, rng.randint(0, 12), "abcXYZ 019-_.:,{}[]()'`/é日😀<>=!&|+*%^#@$~?;")


def value(rng, depth):
    r = rng.random()
    if depth <= 0 or r < .45:
        k = rng.random()
        return number(rng) if k < .5 else string(rng) if k < .8 else rng.choice([True, False, None])
    n = rng.choice([0, 1, 1, 2, 3, 6]) if rng.random() < .97 else rng.choice([50, 200])
    if n >= 50: depth = 1
    if r < .72: return [value(rng, depth - 1) for _ in range(n)]
    return {string(rng, 0) if rng.random() < .7 else rng.choice(["id", "name", "json", "body", "status", "length", "if", "a b", ""]): value(rng, depth - 1) for _ in range(n)}


def play(ctx, env, docs):
    """docs: (body, value or ABSENT, sig)"""
    lines, sent = [], []
    env.bodies.clear()
    for body, _, _ in docs:
        env.n += 1
        env.bodies[env.n] = body
        sent.append(around(env.n))
        lines.append("request r `GET http://127.0.0.1:%d/%d` [json != 0, status == %d]\nlet v = r()" % (env.s.port, env.n, sent[-1][0]))
        lines.append("v.json")
    steps, why = util.session(env.p, lines, idle=None, cpu=60)
    replay = {"bodies": [b[:4000] for b, _, _ in docs], "lines": lines[:4]}
    env.s.take()
    if not ctx.check(steps is not None, lambda: "bodies %r: %s" % ([b[:300] for b, _, _ in docs], why), replay): return
    for i, (body, want, sig) in enumerate(docs):
        def bad(what, sig=None): ctx.violation("%s, for the body %s" % (what, wire.shorten(body.encode())), replay, sig)
        a, b = steps[2 * i], steps[2 * i + 1]
        if "ok" not in a or "ok" not in b:
            bad("the call failed: %r" % (b if "ok" in a else a))
            continue
        v = model.read_debug(a["ok"])
        rest = {k: x for k, x in v.items() if k != "json"}
        if rest != {"version": "HTTP/1.1", "status": sent[i][0], "reason": "OK", "headers": {"Content-Type": [sent[i][1]], "X-A": ["b"]}, "body": body}: bad("the other fields are %s" % repr(rest)[:600])
        if want is ABSENT:
            if "json" in v: bad("json is %s" % repr(v["json"])[:300])
            ctx.count("unparseable")
        else:
            if "json" not in v or not model.same(v["json"], want):
                bad("json is %s" % (repr(v["json"])[:400] if "json" in v else "absent"), sig)
                continue
            got = model.read_debug(b["ok"])
            if not model.same(got, want): bad("v.json is %s" % repr(got)[:300])
            try: shown = model.text(want)
            except model.Unmodelled: shown = None
            if shown is not None:
                left = a["records"][0]["display"].split("\n", 1)[1]
                if not left.startswith("json != 0 => %s != 0 => " % shown): bad("the assertion shows %r, not %r" % (left[:300], shown[:300]))
            ctx.count("documents")
        ctx.seen(body, body[:120])


ABSENT = object()
FINDINGS = [("escape", '"a\\nb"', "a\nb"), ("escape", '{"k": "say \\"hi\\""}', {"k": 'say "hi"'}), ("escape", '"\\u00e9"', "é"), ("exponent", "1e3", 1000.0), ("exponent", "[1.5E-2]", [0.015]),
            ("bigint", "-9223372036854775808", -9223372036854775808), ("bigint", "18446744073709551615", 18446744073709551615)]
BROKEN = ["<html><body>x</body></html>", "<", "{", "[", "{\"a\"", "{\"a\":", "{\"a\": 1", "{\"a\": 1,", "[1", "[1,", "[1, 2", "{\"a\": }", "[[[[", "]", "}", "[}", "{]", ":", "= =", "\xff\xfe]", "[1, \"x]", "<?xml version=\"1.0\"?>", "{\"a\": [1, {\"b\": ", "<!DOCTYPE html>", "[" * 5000, "{\"a\":" * 3000, "(" * 100000]


def directed(ctx, env, w, nw):
    docs = [(render(v), plain(v), None) for v in
            [None, True, False, "", "x", [], {}, [[]], [{}], {"a": {}}, {"": ""}, [None], [True, False, None], {"a": None}] + [Number(s) for s in ("0", "-0", "-1", "1", "0.0", "-0.0", "1.5", "-1.5", "9223372036854775807", "-9223372036854775807", "0.1", "100", "-0.5", "00"[:1])]]
    for s in [string_ for string_ in dictionary.strings() if '"' not in string_ and "\\" not in string_ and all(c >= " " for c in string_)]:
        docs.append((render({s: s}), {s: s}, None))
    for c in [chr(i) for i in range(32, 128) if chr(i) not in "\"\\"] + list("\x80\x85\xa0é\u2028\u2029\ufeff日😀\U0010ffff"): docs.append((render({"k" + c: [c, "a" + c, c + "b"]}), {"k" + c: [c, "a" + c, c + "b"]}, None))
    for n in list(gen.INTS) + list(dictionary.ints()):
        for m in (n, -n):
            if abs(m) < 1 << 63: docs.append((render([Number(str(m)), {"n": Number("%d.5" % m)}]), [m, {"n": float("%d.5" % m)}], None))
    for n in (1, 2, 3, 10, 50, 100):
        docs.append(("[" * n + "1" + "]" * n, eval("[" * n + "1" + "]" * n), None))
        d = 7
        for _ in range(n): d = {"k": d}
        docs.append((render(json.loads(json.dumps(d), parse_int=Number)), d, None))
    for n in dictionary.sizes(5000): docs.append((render([Number(str(i)) for i in range(n)]), list(range(n)), None))
    for n in (12000, 40000, 70000, 100001): docs.append((render([Number(str(i)) for i in range(n)]), list(range(n)), None))
    for n in (5000, 70000): docs.append((render({"k%d" % i: Number(str(i)) for i in range(n)}), {"k%d" % i: i for i in range(n)}, None))
    for n in (1 << 20, 3000000): docs.append((render(["z", "y" * n, "x"]), ["z", "y" * n, "x"], None))
    for n in dictionary.sizes(1100): docs.append((render({"k%d" % i: Number(str(i)) for i in range(n)}), {"k%d" % i: i for i in range(n)}, None))
    for n in dictionary.sizes(140000): docs.append((render({"a": "é" * n}), {"a": "é" * n}, None))
    big = {"items": [{"id": Number(str(i)), "name": "n%d" % i, "ok": i % 2 == 0, "w": Number("%d.25" % i), "tags": ["a", "b"]} for i in range(6000)]}
    docs.append((render(big), plain(big), None))
    for ws in (" ", "\n", "\t", "\r\n", " \n\t\r "): docs.append((ws + render({"a": [Number("1"), Number("-2"), {"b": None}]}, lambda ws=ws: ws) + ws, {"a": [1, -2, {"b": None}]}, None))
    docs += [(b, ABSENT, None) for b in BROKEN]
    batch = []
    for i, d in enumerate(docs):
        if i % nw != w: continue
        batch.append(d)
        if len(batch) >= 15:
            play(ctx, env, batch)
            batch = []
    if batch: play(ctx, env, batch)
    if w == 0: play(ctx, env, [(b, v, s) for s, b, v in FINDINGS])


def case(ctx, rng, env):
    docs = []
    for _ in range(rng.choice([1, 3, 6])):
        v = value(rng, rng.choice([0, 1, 2, 3, 4, 6]))
        style = rng.random()
        ws = (lambda: "") if style < .2 else (lambda: rng.choice(WS)) if style < .8 else (lambda: " ")
        t = ws() + render(v, ws) + ws()
        if isinstance(v, (list, dict)) and rng.random() < .15:
            core = t.strip()
            docs.append((core[:rng.randint(1, len(core) - 1)], ABSENT, None))
        else: docs.append((t, plain(v), None))
    play(ctx, env, docs)
