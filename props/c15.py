"""C15: https is authenticated and encrypted before anything is sent."""
import re, ssl, time
from mon import build as B, dictionary, model, net, pki, probe, texts, util, wire
from mon.pki import DAY
from props import c13

RULE = ("https requests for names and IP addresses against a server under control of the harness that shows certificates valid for the host, or invalid in one of 30 ways, with TLS 1.2 and 1.3, and plaintext, garbage, cut or tampered handshakes "
        "and responses; the raw bytes of the connection, what the server could decrypt and the record are judged. Non-trivial: a distinct (server behaviour, host, TLS version, sizes).")
ASSUMPTIONS = ["the trusted roots are those SSL_CERT_FILE names (the platform's way on Linux)", "the clock of the sandbox; revocation is not exercised",
               "a response ended without a TLS close is taken as complete by the client (deliberately so in its code) and not judged"]
FLOOR = 150
BUDGET = {"quick": 25, "thorough": 300}
WORKERS = 16
HOST, IP4, IP6 = "secure.example", "9.9.9.9", "2001:db8::1"
PORTS = (1, 21, 22, 80, 81, 443, 591, 3000, 3128, 8000, 8008, 8080, 8081, 8443, 8888, 9000, 49152, 65535)
NAMES = ("localhost", "127.0.0.1", "::1", "10.0.0.1", "192.168.1.1", "172.16.0.1", "169.254.1.1", "printer.local", "unit.test", "dev.internal", "x.localhost", "localhost.localdomain", "example.com", "www.example.com", "plain", "0.0.0.0", "127.1.2.3", "fe80::1", "fd00::1", "::ffff:127.0.0.1")
SAN = "DNS:secure.example,DNS:a.w.example,IP:9.9.9.9,IP:2001:db8::1"


def build(): c13.build()


class Env: pass


def hierarchy(dir):
    """(name of the server's identity -> chain file), valid ones and invalid ones, for the host secure.example unless the key says otherwise."""
    p = pki.Pki(dir)
    p.cert("root", ca=True)
    p.cert("int", issuer="root", ca=True)
    p.cert("rogue", ca=True)
    p.cert("twin", ca=True, cn="root")
    good, bad = {}, {}

    def leaf(table, name, *chain, host=None, issuer="root", **kw):
        kw.setdefault("san", SAN)
        p.cert(name, issuer=issuer, **kw)
        table[name] = (p.chain(name, *chain), host)
    leaf(good, "direct")
    leaf(good, "chained", "int", issuer="int")
    leaf(good, "rsa", kind="rsa")
    leaf(good, "p384", kind="P-384")
    leaf(good, "eku", eku="serverAuth,clientAuth")
    leaf(good, "wild", san="DNS:*.w.example", host="b.w.example")
    leaf(good, "upper", san="DNS:SECURE.example")
    leaf(good, "ip4", san="IP:9.9.9.9", host=IP4)
    leaf(good, "ip6", san="IP:2001:db8::1", host=IP6)
    leaf(good, "soon", end=3600, start=-120)
    leaf(good, "with_root", "root")
    names = ",".join(("IP:" if n.replace(".", "").isdigit() or ":" in n else "DNS:") + n for n in NAMES)
    leaf(good, "names", san=names, host=NAMES[0])
    leaf(bad, "self_names", issuer=None, san=names, host=NAMES[0])
    leaf(bad, "rogue_names", "rogue", issuer="rogue", san=names, host=NAMES[0])
    leaf(bad, "expired_names", san=names, end=-DAY, start=-9 * DAY, host=NAMES[0])
    leaf(bad, "expired", end=-DAY, start=-9 * DAY)
    leaf(bad, "just_expired", end=-120)
    leaf(bad, "future", start=DAY)
    leaf(bad, "near_future", start=3600)
    for i, san in enumerate(["DNS:evil.example", "DNS:xsecure.example", "DNS:a.secure.example", "DNS:*.secure.example", "DNS:secure.example.evil.example", "DNS:ecure.example", "IP:9.9.9.9", "DNS:example", "DNS:secure.exampl", "email:secure.example@x.example", "URI:https://secure.example/"]):
        leaf(bad, "wrong%d" % i, san=san)
    leaf(bad, "no_www", san="DNS:shop.example", host="www.shop.example")
    leaf(bad, "with_www", san="DNS:www.shop.example", host="shop.example")
    leaf(bad, "wild_deep", san="DNS:*.w.example", host="a.b.w.example")
    leaf(bad, "wild_apex", san="DNS:*.w.example", host="w.example")
    leaf(bad, "ip_other", san="IP:9.9.9.8,DNS:secure.example", host=IP4)
    leaf(bad, "ip_as_name", san="DNS:9.9.9.9", host=IP4)
    leaf(bad, "ip6_other", san="IP:2001:db8::2,IP:9.9.9.9", host=IP6)
    leaf(bad, "cn_only", cn="secure.example", san=None)
    leaf(bad, "ip_cn_only", cn="9.9.9.9", san=None, host=IP4)
    leaf(bad, "self", issuer=None, cn="secure.example")
    leaf(bad, "unknown_ca", "rogue", issuer="rogue")
    leaf(bad, "same_name_ca", "twin", issuer="twin")
    leaf(bad, "same_name_ca_with_root", "root", issuer="twin")
    leaf(bad, "no_intermediate", issuer="int")
    leaf(bad, "client_only", eku="clientAuth")
    leaf(bad, "code_only", eku="codeSigning")
    p.cert("old", issuer="root", ca=True, end=-DAY, start=-9 * DAY)
    leaf(bad, "old_intermediate", "old", issuer="old")
    p.cert("plain", issuer="root", san="DNS:plain.example")
    leaf(bad, "leaf_as_ca", "plain", issuer="plain")
    p.cert("bound", issuer="root", ca=True, extra="nameConstraints=critical,permitted;DNS:other.example")
    leaf(bad, "constrained", "bound", issuer="bound", san="DNS:secure.example")
    return p, good, bad


def serving(path, v):
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    c.load_cert_chain(path)
    c.minimum_version = c.maximum_version = v
    return c


def contexts(chains):
    out = {}
    for name, (path, host) in chains.items():
        for v in (ssl.TLSVersion.TLSv1_2, ssl.TLSVersion.TLSv1_3):
            c = serving(path, v)
            c.path = path
            out[name, v.name] = (c, host or HOST)
    return out


def unresumed(context):
    """A context that knows of no session of an earlier connection, so that the whole handshake is made."""
    return serving(context.path, context.minimum_version)


class Mode:
    """What the server does with the next connection."""

    def __init__(self, kind, context=None, response=b"", cut=None, flip=None, end="fin", notify=True, step=None):
        self.kind, self.context, self.response, self.cut, self.flip, self.end, self.notify, self.step = kind, context, response, cut, flip, end, notify, step


def handler(env):
    def run(conn):
        m = env.mode
        conn.app = bytearray()
        conn.sent = 0
        conn.shook = None  # how much the server had sent when its part of the handshake was done
        if m.kind == "bytes":
            if m.step != "first": conn._more(8)
            conn.send(m.response)
            if m.end == "rst": return conn.rst()
            conn.fin()
            conn.drain(8)
            return
        incoming, outgoing = ssl.MemoryBIO(), ssl.MemoryBIO()
        tls = m.context.wrap_bio(incoming, outgoing, server_side=True)

        def flush():
            data = bytearray(outgoing.read())
            if m.flip is not None and conn.sent <= m.flip < conn.sent + len(data): data[m.flip - conn.sent] ^= m.step or 0x01
            stop = m.cut is not None and conn.sent + len(data) >= m.cut
            if stop: data = data[:max(0, m.cut - conn.sent)]
            conn.sent += len(data)
            if data: conn.send(bytes(data))
            return not stop

        def feed():
            at = len(conn.raw)
            if not conn._more(8): return False
            incoming.write(bytes(conn.raw[at:]))
            return True

        def end():
            if m.end == "rst": return conn.rst()
            conn.fin()
            while conn._more(8):
                pass
        while True:
            try:
                tls.do_handshake()
                break
            except ssl.SSLWantReadError:
                if not flush(): return end()
                conn.flight = conn.sent
                if not feed(): return end()
            except ssl.SSLError:
                flush()
                return end()
        conn.shook = conn.sent
        if not flush(): return end()
        while not whole(conn.app):
            try:
                data = tls.read(1 << 16)
                if not data: break
                conn.app += data
            except ssl.SSLWantReadError:
                if not feed(): break
            except (ssl.SSLError, OSError): break
        if whole(conn.app):
            conn.complete = True
            tls.write(m.response)
            if m.notify:
                try: tls.unwrap()
                except ssl.SSLError: pass
            flush()
        end()
    return run


def whole(raw):
    end = raw.find(b"\r\n\r\n")
    if end < 0: return False
    m = re.search(rb"(?i)content-length: *(\d+)", raw[:end])
    return len(raw) >= end + 4 + (int(m.group(1)) if m else 0)


def setup(ctx):
    e = Env()
    e.scratch = util.Scratch("amtls.")
    p, good, bad = hierarchy(e.scratch.path)
    e.good, e.bad = contexts(good), contexts(bad)
    e.mode = None
    e.net = net.Net(e.scratch.path, handler(e))
    e.net.set()
    e.p = probe.Probe(env=dict(e.net.env, SSL_CERT_FILE=p.path("root.pem")))
    e.n = 0
    e.port = None  # the port of the urls to come
    return e


def teardown(e):
    e.p.stop()
    e.net.close()
    e.scratch.__exit__()


def exchange(ctx, env, mode, host, body="b", port=None, scheme="https"):
    """One request under a mode: (secret, step, connections that carried bytes, replay) or None."""
    env.n += 1
    port = port or env.port
    secret = "secret%d-%d-%s" % (env.n, ctx.worker, "".join("k9Qz"[(env.n >> i) & 3] for i in range(0, 12, 2)))
    env.mode = mode
    env.net.set({h: ["9.9.9.7"] for h in (HOST, "a.w.example", "b.w.example", "w.example", "a.b.w.example", "shop.example", "www.shop.example") + tuple(n for n in NAMES if n[-1].isalpha())})
    url = "%s://%s%s/%s" % (scheme, "[%s]" % host if ":" in host else host, ":%d" % port if port else "", secret)
    line = "request r `POST %s\nHost: %s\nX-Secret: %s\n\n%s %s` [status == 200]\nr()" % (url, host, secret, secret, body)
    steps, why = util.session(env.p, [line], idle=None, cpu=60)
    conns = [c for c in env.net.take() if c.raw]
    replay = {"mode": mode.kind, "url": url, "cut": mode.cut, "flip": mode.flip, "steps": repr(steps)[:3000], "decrypted": [repr(bytes(getattr(c, "app", b"")[:400])) for c in conns]}
    if not ctx.check(steps is not None, lambda: "%s: %s" % (url, why), replay): return None
    for c in conns:
        ctx.check(secret.encode() not in bytes(c.raw), lambda: "%s: sent in clear: %r" % (url, bytes(c.raw[:300])), replay)
        ctx.count("raw_bytes", len(c.raw))
    return secret, steps[0], conns, replay


def refused(ctx, label, r, sent=False):
    """Nothing went out, nothing came in, and it is reported so."""
    secret, step, conns, replay = r
    got = b"".join(bytes(getattr(c, "app", b"")) for c in conns)
    if not sent: ctx.check(not got, lambda: "%s: the server could read %r" % (label, got[:200]), replay)
    record = (step.get("records") or [{}])[0]
    ctx.check("--- FAIL  r (" in record.get("display", ""), lambda: "%s: reported %r" % (label, record.get("display", step)), replay)
    if "response" in record:
        ctx.check(record["error"] != "" and record["response"]["body"] == "" and record["response"]["status"] == 0, lambda: "%s: error %r, response %r" % (label, record["error"], record["response"]), replay)
    ctx.count("refused")


def valid(ctx, env, name, version, body="b", answer="answer", notify=True, host=None, scheme="https", port=None):
    context, own = env.good[name, version]
    response = wire.response(headers=[("Content-Length", str(len(answer.encode()))), ("X-T", "é")], body=answer)
    host = host or own
    r = exchange(ctx, env, Mode("tls", context, response, notify=notify), host, body, scheme=scheme, port=port)
    if r is None: return
    secret, step, conns, replay = r
    label = "valid server %s (%s) for %s port %s" % (name, version, host, port or env.port)
    if not ctx.check(len(conns) == 1 and getattr(conns[0], "complete", False), lambda: "%s: %d connections, %r" % (label, len(conns), step), replay): return
    why = wire.check(conns[0].app, "POST", "/" + secret, "HTTP/1.1", [("Host", host), ("X-Secret", secret)], (secret + " " + body).rstrip(model.TRIM).encode())
    ctx.check(why is None, lambda: "%s: %s" % (label, why), replay)
    ctx.check("ok" in step and "--- PASS  r (" in step["records"][0]["display"], lambda: "%s: %r" % (label, step), replay)
    v = model.read_debug(step["ok"])
    ctx.check((v["status"], v["body"], v["headers"]["X-T"]) == (200, answer, ["é"]), lambda: "%s: the response is %s" % (label, repr(v)[:300]), replay)
    ctx.count("accepted")
    ctx.seen(("valid", name, version, len(body), len(answer), notify, host, port or env.port), label)


def invalid(ctx, env, name, version, port=None, host=None):
    context, own = env.bad[name, version]
    host = host or own
    r = exchange(ctx, env, Mode("tls", context, wire.response(body="answer")), host, port=port)
    if r is None: return
    refused(ctx, "server with certificate %s (%s) for %s port %s" % (name, version, host, port or env.port), r)
    ctx.seen(("invalid", name, version, port or env.port, host), "certificate %s, %s" % (name, version))


def mismatched(ctx, env, name, version, host):
    """A certificate valid for one host shown for another."""
    context, own = env.good[name, version]
    r = exchange(ctx, env, Mode("tls", context, wire.response(body="answer")), host)
    if r is None: return
    refused(ctx, "certificate %s of %s (%s) for %s" % (name, own, version, host), r)
    ctx.seen(("mismatched", name, version, host), "certificate %s for %s" % (name, host))


def raw(ctx, env, data, step=None, end="fin", host=HOST, port=None):
    r = exchange(ctx, env, Mode("bytes", response=data, step=step, end=end), host, port=port)
    if r is None: return
    refused(ctx, "server answering %r" % data[:60], r)
    ctx.seen(("bytes", data, step, end, host, port or env.port), repr(data[:60]))


def cut(ctx, env, version, n, end):
    """The handshake stops after n bytes of the server's."""
    context, host = env.good["chained", version]
    r = exchange(ctx, env, Mode("tls", unresumed(context), wire.response(body="answer"), cut=n, end=end), host)
    if r is None: return
    if any(getattr(c, "shook", None) is not None and c.sent >= c.shook for c in r[2]) and version == "TLSv1_2": return
    handshake = max([getattr(c, "flight", n) for c in r[2]] + [0])
    refused(ctx, "handshake (%s) cut after %d bytes by %s" % (version, n, end), r, sent=True)
    ctx.seen(("cut", version, n, end), "cut after %d" % n)


def tampered(ctx, env, version, at, mask, answer):
    """One byte of what the server sends is changed on the way: either it makes no difference, or it is an error."""
    context, host = env.good["chained", version]
    r = exchange(ctx, env, Mode("tls", unresumed(context), wire.response(headers=[("A", "b")], body=answer), flip=at, step=mask), host)
    if r is None: return
    secret, step, conns, replay = r
    record = (step.get("records") or [{}])[0]
    label = "byte %d of the server (%s) changed by %#x" % (at, version, mask)
    if "--- PASS" in record.get("display", ""):
        v = model.read_debug(step["ok"])
        ctx.check((v["status"], v["body"], v["headers"]) == (200, answer, {"A": ["b"]}), lambda: "%s: the response is %s" % (label, repr(v)[:300]), replay)
        ctx.count("tampering_without_effect")
    else:
        refused(ctx, label, r, sent=True)
        ctx.count("tampering_detected")
    ctx.seen(("tampered", version, at, mask), label)


VERSIONS = ("TLSv1_2", "TLSv1_3")
GARBAGE = [b"", httpd_ok := b"HTTP/1.1 200 OK\r\nContent-Length: 6\r\n\r\nanswer", b"\x15\x03\x03\x00\x02\x02\x28", b"\x15\x03\x03\x00\x02\x01\x00", b"\x16\x03\x03\x00\x00", b"\x16\x03\x03\xff\xff", b"\x17\x03\x03\x00\x10" + b"A" * 16, bytes(range(256)), b"\0" * 1000, b"\x16\x03\x01\x00\x04\x02\x00\x00\x00", b"SSH-2.0-x\r\n", b"\xff" * 20000]


def directed(ctx, env, w, nw):
    jobs = []
    for name, v in env.good: jobs.append(lambda name=name, v=v: valid(ctx, env, name, v))
    for name, v in env.bad: jobs.append(lambda name=name, v=v: invalid(ctx, env, name, v))
    for v in VERSIONS:
        for scheme in ("HTTPS", "Https", "hTTpS"): jobs.append(lambda v=v, scheme=scheme: valid(ctx, env, "direct", v, scheme=scheme))
        for host in ("SECURE.example", IP4, IP6, "a.w.example"): jobs.append(lambda v=v, host=host: valid(ctx, env, "direct", v, host=host))
        jobs += [lambda v=v: mismatched(ctx, env, "ip4", v, HOST), lambda v=v: mismatched(ctx, env, "ip4", v, IP6), lambda v=v: mismatched(ctx, env, "wild", v, HOST), lambda v=v: mismatched(ctx, env, "upper", v, IP4), lambda v=v: mismatched(ctx, env, "upper", v, "w.example"), lambda v=v: mismatched(ctx, env, "direct", v, "b.w.example")]
        for n in (1, 16383, 16384, 16385, 100000, 1000000, 3000000): jobs += [lambda v=v, n=n: valid(ctx, env, "direct", v, "q" * n, "a"), lambda v=v, n=n: valid(ctx, env, "direct", v, "q", "é" * n), lambda v=v, n=n: valid(ctx, env, "chained", v, "q" * n, "a" * n, notify=False)]
        for n in list(range(0, 12)) + [40, 80, 90, 100, 120, 127, 128, 200, 300, 500, 700]:
            for end in ("fin", "rst"): jobs.append(lambda v=v, n=n, end=end: cut(ctx, env, v, n, end))
        for at in list(range(0, 12)) + list(range(12, 1800, 29)): jobs.append(lambda v=v, at=at: tampered(ctx, env, v, at, 1 << (at % 8), "answer " * 20))
        # a trusted server first, then somebody else under the same name
        jobs.append(lambda v=v: [valid(ctx, env, "direct", v), invalid(ctx, env, "self", v), valid(ctx, env, "chained", v), invalid(ctx, env, "unknown_ca", v), invalid(ctx, env, "expired", v)])
    for i, port in enumerate(PORTS):
        v = VERSIONS[i % 2]
        jobs += [lambda v=v, port=port: [valid(ctx, env, "direct", v, port=port), invalid(ctx, env, "unknown_ca", v, port=port), raw(ctx, env, httpd_ok, port=port), raw(ctx, env, httpd_ok, "first", port=port)]]
    for i, host in enumerate(NAMES):
        v = VERSIONS[i % 2]
        jobs += [lambda v=v, host=host, port=port: [valid(ctx, env, "names", v, host=host, port=port), invalid(ctx, env, "self_names", v, port, host), invalid(ctx, env, "rogue_names", v, port, host), invalid(ctx, env, "expired_names", v, port, host), invalid(ctx, env, "expired", v, port, host), raw(ctx, env, httpd_ok, host=host, port=port)] for port in (None, 8443)]
    for g in GARBAGE:
        for step in (None, "first"):
            for end in ("fin", "rst"): jobs.append(lambda g=g, step=step, end=end: raw(ctx, env, g, step, end))
    for i, j in enumerate(jobs):
        if i % nw == w: j()


def case(ctx, rng, env):
    v = rng.choice(VERSIONS)
    r = rng.random()
    env.port = rng.choice([None, None, rng.choice(PORTS), rng.randint(1, 65535)])
    if r < .25: valid(ctx, env, rng.choice([n for n, _ in env.good]), v, texts.chars(rng, rng.choice(dictionary.sizes(70000))) + "z", texts.chars(rng, rng.choice(dictionary.sizes(70000))), rng.random() < .7)
    elif r < .5: invalid(ctx, env, rng.choice([n for n, _ in env.bad]), v)
    elif r < .6: raw(ctx, env, rng.choice(GARBAGE)[:rng.randint(0, 300)] + bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 5, 300]))), rng.choice([None, "first"]), rng.choice(["fin", "rst"]))
    elif r < .75: cut(ctx, env, v, rng.randint(0, 700), rng.choice(["fin", "rst"]))
    else: tampered(ctx, env, v, rng.randint(0, 2500), 1 << rng.randint(0, 7), texts.chars(rng, rng.choice([5, 100, 1000])))
