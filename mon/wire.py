"""What a request message means on the wire, from the properties: expectations and their comparison with recorded bytes."""
import re, urllib.parse
from .model import TRIM

METHODS = ["GET", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "HEAD", "TRACE", "CONNECT"]
VERSIONS = ["HTTP/1.1", "HTTP/1.0", "HTTP/0.9", "HTTP/2.0", "HTTP/3.0"]
FRAMING = {"content-length", "transfer-encoding"}


class Message:
    """A structured request; text() is how it is declared in a script."""

    def __init__(self, method, url, version=None, headers=(), body=None, target=None):
        self.method, self.url, self.version, self.headers, self.body, self.target = method, url, version, list(headers), body, target

    def text(self, rng=None):
        pad = (lambda: rng.choice(["", "", "  ", "\t"])) if rng else (lambda: "")
        lines = [pad() + " ".join(x for x in (self.method, self.url, self.version) if x)]
        lines += [pad() + "%s:%s%s" % (k, pad() or " ", v) + pad() for k, v in self.headers]
        if self.body is not None: lines += [pad()] + self.body
        return (pad() and "\n") + "\n".join(lines)


def head(raw):
    """(request line, header pairs, body, framing pairs) of recorded bytes; raises ValueError."""
    i = raw.find(b"\r\n\r\n")
    if i < 0: raise ValueError("no end of headers in %r" % bytes(raw[:300]))
    lines = bytes(raw[:i]).split(b"\r\n")
    headers = []
    for l in lines[1:]:
        k, colon, v = l.partition(b":")
        if not colon: raise ValueError("header line %r" % l)
        if b"\n" in l or b"\r" in l: raise ValueError("line break inside header %r" % l)
        headers.append((k.decode(), v.decode().strip(TRIM)))
    return lines[0].decode(), headers, bytes(raw[i + 4:])


def check(raw, method, target, version, headers, body=None, boundary=False):
    """Compares recorded bytes with a declaration; body None: not judged here. Returns a reason or None."""
    try: line, got, rest = head(raw)
    except (ValueError, UnicodeDecodeError) as e: return str(e)
    want = "%s %s %s" % (method, target, version)
    if line != want: return "request line %r, declared %r" % (line[:500], want[:500])
    declared = [(k, v) for k, v in headers]
    framed = {k.lower() for k, _ in declared} & FRAMING
    kept = [(k, v) for k, v in got if k.lower() not in FRAMING or framed]
    if boundary:
        kept = [(k, re.sub(r";\s*boundary=.*$", "", v) if k.lower() == "content-type" else v) for k, v in kept]
    if kept != declared:
        for i, (a, b) in enumerate(zip(kept + [None] * 9, declared + [None] * 9)):
            if a != b: return "header %d is %r, declared %r (of %d sent, %d declared)" % (i + 1, a, b, len(kept), len(declared))
    if not framed:
        lengths = [v for k, v in got if k.lower() == "content-length"]
        if any(k.lower() == "transfer-encoding" for k, _ in got): pass
        elif len(lengths) > 1: return "several content lengths %r" % lengths
        elif lengths and lengths[0] != str(len(rest)): return "content length %s of a body of %d bytes" % (lengths[0], len(rest))
        elif rest and not lengths: return "a body of %d bytes without framing" % len(rest)
    if body is not None and rest != body: return "body %s, declared %s" % (shorten(rest), shorten(body))
    return None


def shorten(b): return repr(b) if len(b) < 400 else "%r...%r (%d bytes)" % (b[:150], b[-100:], len(b))


def raw_body(lines):
    """The bytes of a raw body: its lines, without the blank ones and blanks at its end."""
    return "\n".join(lines).rstrip(TRIM).encode() if "".join(lines).strip(TRIM) else b""


def form(body):
    """Pairs an HTTP server decodes from an urlencoded body."""
    return urllib.parse.parse_qsl(body.decode("ascii"), keep_blank_values=True, strict_parsing=bool(body), errors="strict", max_num_fields=None)


def multipart(body, content_type):
    """[(name, filename or None, bytes)] by the boundary announced in the header; raises ValueError."""
    m = re.search(r'boundary="?([^";]+)"?', content_type)
    if not m: raise ValueError("no boundary announced in %r" % content_type)
    mark = b"--" + m.group(1).encode()
    if body.startswith(mark): start = 0
    else:  # a preamble ends with the line break before the first boundary
        start = body.find(b"\r\n" + mark) + 2
        if start < 2: raise ValueError("no boundary in the body: %r" % body[:200])
    out, pos = [], start + len(mark)
    while True:
        if body.startswith(b"--", pos):
            if body[pos + 2:] not in (b"", b"\r\n"): raise ValueError("after the closing boundary: %r" % body[pos + 2:][:100])
            return out
        if not body.startswith(b"\r\n", pos): raise ValueError("boundary line %r" % body[pos:pos + 60])
        end = body.find(b"\r\n" + mark, pos)
        if end < 0: raise ValueError("no closing boundary")
        part = body[pos + 2:end]
        h, sep, data = part.partition(b"\r\n\r\n")
        if not sep: raise ValueError("part without end of headers")
        fields = {}
        for l in h.decode().split("\r\n"):
            k, _, v = l.partition(":")
            fields[k.strip().lower()] = v.strip()
        d = fields.get("content-disposition", "")
        n = re.search(r'[;\s]name="((?:[^"\\]|\\.)*)"', d)
        f = re.search(r'[;\s]filename="((?:[^"\\]|\\.)*)"', d)
        if not d.startswith("form-data") or not n: raise ValueError("disposition %r" % d)
        out.append((n.group(1), f.group(1) if f else None, data))
        pos = end + 2 + len(mark)


def response(version="HTTP/1.1", status=200, reason="OK", headers=(), body=b""):
    """The bytes of a response; headers are (name, value) or (name, value, raw text after the colon)."""
    line = "%s %d%s" % (version, status, " " + reason if reason is not None else "")
    hs = "".join("%s:%s\r\n" % (h[0], h[2] if len(h) > 2 else " " + h[1]) for h in headers)
    return (line + "\r\n" + hs + "\r\n").encode() + (body.encode() if isinstance(body, str) else body)


def collect(headers):
    """name -> values, as the script sees repeated headers."""
    out = {}
    for h in headers: out.setdefault(h[0], []).append(h[1])
    return out
