"""C13: a request goes to the host and port its URL names."""
import ipaddress, urllib.parse
from mon import build as B, dictionary, net, httpd, probe, texts, util, wire

RULE = ("absolute URLs generated from their parts (scheme spelling, names, IPv4 and bracketed IPv6 hosts, with and without user info, port, path, query and fragment full of ':', '/', '?', '@', '//' and brackets); the lookups and connects "
        "the real client makes are logged by a preloaded shim and compared with the parts, the request must arrive over such a connection, and the recorded URL, read by an independent parser, must name the same. Non-trivial: a distinct URL.")
ASSUMPTIONS = ["the shim logs at the C library boundary (getaddrinfo, connect), which is how std resolves and connects"]
FLOOR = 300
BUDGET = {"quick": 20, "thorough": 300}
NAMES = ["a", "host", "example.com", "www.example.co.uk", "a-b.c", "x_y.z", "localhost", "EXAMPLE.com", "h1", "1a.com", "xn--bcher-kva.example", "a.b.c.d.e.f", "http", "https.com", "com", "0x.org", "test.", "l" * 63 + ".org"]
V4 = ["1.2.3.4", "10.0.0.1", "127.0.0.2", "192.168.255.254", "255.255.255.254", "8.8.8.8"]
V6 = ["::1", "2001:db8::1", "fe80::1:2", "2001:db8:0:1:2:3:4:5", "::ffff:1.2.3.4", "1::", "2001:DB8::AbCd"]


def build():
    B.probe()
    B.shim()


class Env: pass


def handler(conn):
    """Answers plain requests, and closes on anything that is a TLS hello."""
    conn.sock.settimeout(8)
    if conn._more(8) is None or not conn.raw: return
    if conn.raw[0] == 22: return
    conn.request()
    conn.send(httpd.OK)
    conn.fin()
    conn.drain()


def setup(ctx):
    e = Env()
    e.scratch = util.Scratch("amnet.")
    e.net = net.Net(e.scratch.path, handler)
    e.p = probe.Probe(env=e.net.env)
    return e


def teardown(e):
    e.p.stop()
    e.net.close()
    e.scratch.__exit__()


def norm(ip):
    a = ipaddress.ip_address(ip)
    return str(a)


def play(ctx, env, urls):
    """urls: (text, scheme, host, port or None, path as declared, addresses of the host)"""
    hosts = {}
    for u in urls:
        if u[5] is not None: hosts[u[2].lower()] = u[5]
    for text, scheme, host, port, rest, addrs in urls:
        env.net.set({h: a for h, a in hosts.items()})
        line = "request r `GET %s`; r()" % text
        steps, why = util.session(env.p, [line.replace(";", "\n")] if ";" not in text else ["request r `GET %s`\nr()" % text], idle=90)
        conns = env.net.take()
        events = env.net.events()
        env.p.settle()
        replay = {"url": text, "events": [list(e) for e in events][:40]}
        if not ctx.check(steps is not None, lambda: "%r: %s" % (text, why), replay): continue
        step = steps[0]
        tls = scheme.lower() == "https"
        if port == "none":
            went = [e[1:] for e in events if e[0] == "C"]
            ctx.check(not went and not conns, lambda: "%r: its port is none, connected to %r" % (text, went), replay)
            ctx.check("ok" in step and "records" in step and len(step["records"]) == 1 and step["records"][0].get("error"), lambda: "%r: its port is none: %s" % (text, repr(step)[:500]), replay)
            ctx.count("not_ports")
            ctx.seen(text, text[:160])
            continue
        want = port if port is not None else 443 if tls else 80
        allowed = {norm(a) for a in (addrs if addrs is not None else [host.strip("[]")])}
        looked = {e[1].lower() for e in events if e[0] == "G"}
        went = [(norm(e[2]), e[3]) for e in events if e[0] == "C"]
        ok = looked <= {host.lower().strip("[]")} and went and all(a in allowed and p == want for a, p in went)
        if not ctx.check(ok, lambda: "%r: looked up %r and connected to %r, the URL names %s port %d (%s)" % (text, sorted(looked), went, host, want, ", ".join(sorted(allowed))), replay): continue
        full = [c for c in conns if c.raw]
        if not ctx.check(len(full) == 1, lambda: "%r: %d connections carried bytes" % (text, len(full)), replay): continue
        if tls: ctx.check(full[0].raw[0] == 22, lambda: "%r: sent %r" % (text, bytes(full[0].raw[:60])), replay)
        else:
            why = wire.check(full[0].raw, "GET", rest.split("#")[0], "HTTP/1.1", [], b"")
            ctx.check(why is None, lambda: "%r: %s" % (text, why), replay)
        records = step.get("records") or []
        if ctx.check(len(records) == 1, lambda: "%r: %r" % (text, step), replay) and "request" in records[0]:
            url = records[0]["request"]["url"]
            try:
                s = urllib.parse.urlsplit(url)
                got = (s.scheme, s.hostname, s.port if s.port is not None else 443 if s.scheme == "https" else 80, url.split("//", 1)[1][len(s.netloc):] or "/")
            except ValueError as e: got = str(e)
            ctx.check(got == (scheme.lower(), host.strip("[]").lower(), want, rest), lambda: "%r: recorded url %r reads as %r" % (text, url, got), replay)
        ctx.count("lookups", len(looked))
        ctx.count("connects", len(went))
        ctx.count("tls" if tls else "plain")
        ctx.seen(text, text[:160])


def make(scheme, host, port, rest, user="", addrs=("9.9.9.9",)):
    """The URL text and what it names."""
    literal = host.startswith("[") or all(c in "0123456789." for c in host)
    text = "%s://%s%s%s%s" % (scheme, user + "@" if user else "", host, ":" + port if port is not None else "", rest)
    path = rest if rest.startswith("/") else "/" + rest
    return text, scheme, host, "none" if port in NOT_PORTS else int(port) if port else None, path, None if literal else list(addrs)


# what cannot be a port: nothing is contacted instead
NOT_PORTS = ["65536", "65537", "65616", "99999", "100000", "131152", "4294967376", "18446744073709551696", "80a", "a80", "abc", "-1", "-80", "8.0", "80:80", ":80", "0x50", "80,81", "8_0", "http", "é", "8080x", "1e2", "%38%30"]
RESTS = ["", "/", "/a", "?q=1", "#f", "/a?b=c#d", "/http://other:81/x", "?u=https://other:82/", "/a:81/b", "?a:81", "#a:81", "/@other", "?x=@other", "#@other:83/", "/a@other:84", "//other/x", "//", "/[::1]:85", "?[::1]", "/]", "?]:86", "/x]:87/", "/a?b?c", "/a#b#c", "/:", "/::", "?:", "/a;b=c", "/://", "?://", "#://x", "/%2F%40", "/é"]


def directed(ctx, env, w, nw):
    urls = []
    for scheme in ("http", "https", "HTTP", "Http", "HTTPS", "hTTps"):
        for host in ["h.example", "1.2.3.4", "[2001:db8::1]"]:
            for port in (None, "8080", "80", "443"):
                for rest in RESTS if scheme in ("http", "https") else RESTS[:6]: urls.append(make(scheme, host, port, rest))
    for host in NAMES + V4 + ["[%s]" % a for a in V6]:
        for port in (None, "1", "81"): urls.append(make("http", host, port, "/x"))
    for p in [0] + [n for n in range(1, 12)] + list(dictionary.ints(65536)) + [65534, 65535]:
        if p: urls.append(make("http", "p.example", str(p), "/x"))
        if p: urls.append(make("https", "[::5]", str(p), "?x"))
    for p in ("0", "00", "00080", "0443", "08080", "065535", "000000081"):
        for scheme in ("http", "https"): urls.append(make(scheme, "p.example", p, "/x"))
    for user in ("u", "u:p", "u:80", "other.example:81", "other.example", "a%40b", "1.2.3.4", "", "a@b", "u:p@x:81", "other.example:81@x", "@", "other.example@"):
        for host in ("h.example", "1.2.3.4", "[2001:db8::1]"):
            for port in (None, "8080"): urls.append(make("http", host, port, "/x", user))
    for n in range(1, 9): urls.append(make("http", "many.example", "88", "/x", addrs=["9.9.9.%d" % i if i % 2 else "2001:db8::%d" % i for i in range(n)]))
    for p in NOT_PORTS:
        for host in ("h.example", "1.2.3.4", "[2001:db8::1]"):
            for scheme in ("http", "https"): urls.append(make(scheme, host, p, RESTS[len(urls) % len(RESTS)]))
    play(ctx, env, [u for i, u in enumerate(urls) if i % nw == w])


def case(ctx, rng, env):
    scheme = rng.choice(["http"] * 5 + ["https", "HTTP", "Https"])
    r = rng.random()
    if r < .5: host = rng.choice(NAMES) if rng.random() < .5 else ".".join("".join(rng.choice("abcxyz019-") for _ in range(rng.randint(1, 8))).strip("-") or "q" for _ in range(rng.randint(1, 4))) + "z"
    elif r < .75: host = ".".join(str(rng.choice([1, 10, 127, 200, 254, rng.randint(1, 254)])) for _ in range(4))
    else: host = "[%s]" % (rng.choice(V6) if rng.random() < .3 else ipaddress.IPv6Address(rng.getrandbits(128) >> rng.choice([0, 64, 100])))
    port = None if rng.random() < .3 else rng.choice(NOT_PORTS) if rng.random() < .05 else str(rng.choice([80, 443, 8080, rng.randint(1, 65535)]))
    rest = rng.choice(RESTS) if rng.random() < .4 else rng.choice("/?#") + texts.chars(rng, rng.randint(0, 20), "abc019/:?#@[]=&%.-~!$'()*+,")
    user = "" if rng.random() < .9 else texts.chars(rng, rng.randint(1, 8), "abc019:.-%")
    addrs = [rng.choice(["9.9.9.9", "9.9.9.8", "2001:db8::9"])] if rng.random() < .8 else ["2001:db8::9", "9.9.9.9", "9.9.9.8"]
    play(ctx, env, [make(scheme, host, port, rest, user, addrs)])
