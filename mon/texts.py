"""Text pieces for requests and responses."""
from . import dictionary

NAMES = ["Host", "Accept", "User-Agent", "X-Id", "x-lower", "X_Under", "ETag", "Cookie", "Authorization", "X-A", "X-B", "Cache-Control", "Connection", "Referer", "Range", "If-Match", "A", "Accept-Encoding", "Expect-X",
         "Set-Cookie", "Location", "Server", "Date", "Via", "X-Content-Type", "Content-Language", "X-Content-Length"]
VALUES = ["", "a", "close", "keep-alive", "text/html; q=0.9, */*", "a: b", "::", "x=y; z=\"w\"", "12345", "http://h/p?q#f", "é", "日本語", "😀", "  inner   blanks  ".strip(), "tab\tinside", "[1, 2]", "(x)", "%20", "\\n",
          "Basic dXNlcjpwYXNz", "0", "-1", "@file", "gzip, deflate", "Mon, 01 Jan 2024 00:00:00 GMT", "'q'", "{}", "{1}", "{ }", "$x", "<a>", "true"]
TARGETS = ["/", "/a", "/a/b/c", "/a?b=c", "/?q=1&r=2", "/%20%7B", "/a//b", "/a/../b", "/é", "/a?u=http://other:81/x", "/a;p=1", "/@x", "/a:b", "/?a=b?c", "/~u", "/a.b-c_d", "/x?y=[1]", "/*", "/HTTP/1.0", "/日本?😀=1"]


def name(rng):
    if rng.random() < .85: return rng.choice(NAMES)
    return rng.choice(["X-", "Z-", ""]) + "".join(rng.choice("abcDEF019-_") for _ in range(rng.randint(1, 20))) + "x"


def chars(rng, n, alphabet="abcdefghij XYZ0189-_=;,./é日😀"): return "".join(rng.choice(alphabet) for _ in range(n))


def value(rng, big=.05, cap=70000):
    r = rng.random()
    if r < big: return chars(rng, rng.choice(dictionary.sizes(cap)), "abcdefgh0189").strip()
    if r < .7: return rng.choice(VALUES)
    return chars(rng, rng.randint(0, 40)).strip()


def target(rng):
    r = rng.random()
    if r < .6: return rng.choice(TARGETS)
    if r < .65: return "/" + chars(rng, rng.choice(dictionary.sizes(9000)), "abc/019")
    return "/" + chars(rng, rng.randint(0, 30), "abcXYZ019-_.~/:@!$&'()*+,;=%é日") + (("?" + chars(rng, rng.randint(0, 30), "abc019=&/?:@é+%")) if rng.random() < .5 else "")


def headers(rng, reserved=("content-type", "content-length", "transfer-encoding")):
    n = rng.choice([0, 1, 2, 3, 5, 8]) if rng.random() < .93 else rng.choice([30, 64, 100, 101, 128, 200, 256, 300])
    out = []
    while len(out) < n:
        k = name(rng)
        if k.lower() in reserved or k.lower() == "content-type": continue
        out.append((k, value(rng)))
        if rng.random() < .15: out.append((k, value(rng)))
    return out
