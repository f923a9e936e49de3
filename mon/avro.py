"""A strict decoder of Avro object container files, independent of the one the project uses."""
import json, re


class Bad(Exception): pass


class Cut(Bad):
    """The data ends in the middle of something."""


class Reader:
    def __init__(self, data, pos=0): self.data, self.pos = data, pos

    def take(self, n):
        if n < 0: raise Bad("negative length %d at %d" % (n, self.pos))
        if self.pos + n > len(self.data): raise Cut("cut at %d" % self.pos)
        b = self.data[self.pos:self.pos + n]
        self.pos += n
        return b

    def long(self):
        n = shift = 0
        start = self.pos
        while True:
            b = self.take(1)[0]
            n |= (b & 0x7f) << shift
            shift += 7
            if not b & 0x80: break
            if shift >= 70: raise Bad("varint too long at %d" % start)
        if n >= 1 << 64: raise Bad("varint beyond 64 bits at %d" % start)
        return (n >> 1) ^ -(n & 1)

    def value(self, s, names):
        if isinstance(s, list): return self.value(s[self._branch(s)], names)
        t = s if isinstance(s, str) else s["type"]
        if isinstance(t, (dict, list)): return self.value(t, names)
        if t == "null": return None
        if t == "boolean":
            b = self.take(1)[0]
            if b > 1: raise Bad("boolean byte %d" % b)
            return bool(b)
        if t in ("int", "long"):
            n = self.long()
            if t == "int" and not -(1 << 31) <= n < 1 << 31: raise Bad("int out of range")
            return n
        if t in ("bytes", "string"):
            b = self.take(self.long())
            if t == "bytes": return b
            try: return b.decode("utf-8")
            except UnicodeDecodeError: raise Bad("string is not utf-8")
        if t == "array":
            out = []
            while True:
                n = self.long()
                if n == 0: return out
                if n < 0:
                    n = -n
                    size = self.long()
                    end = self.pos + size
                    for _ in range(n): out.append(self.value(s["items"], names))
                    if self.pos != end: raise Bad("array block size")
                    continue
                for _ in range(n): out.append(self.value(s["items"], names))
        if t == "record":
            names[s["name"]] = s
            return {f["name"]: self.value(f["type"], names) for f in s["fields"]}
        if t in names: return self.value(names[t], names)
        raise Bad("unknown type %r" % t)

    def _branch(self, s):
        i = self.long()
        if not 0 <= i < len(s): raise Bad("union branch")
        return i


def header(data):
    r = Reader(data)
    if r.take(4) != b"Obj\x01": raise Bad("magic")
    meta = r.value({"type": "array", "items": {"type": "record", "name": "_m", "fields": [
        {"name": "k", "type": "string"}, {"name": "v", "type": "bytes"}]}}, {})
    meta = {m["k"]: m["v"] for m in meta}
    if meta.get("avro.codec", b"null") != b"null": raise Bad("codec")
    return json.loads(meta["avro.schema"].decode()), r.take(16), r.pos


def blocks(data):
    """Yields (records, end offset) per block; raises Cut when the last one is incomplete, Bad when anything is wrong."""
    schema, sync, pos = header(data)
    r = Reader(data, pos)
    while r.pos < len(data):
        n = r.long()
        size = r.long()
        if n <= 0 or size < 0: raise Bad("block of %d records in %d bytes" % (n, size))
        payload = Reader(r.take(size))
        if r.take(16) != sync: raise Bad("sync marker at %d" % (r.pos - 16))
        records = [payload.value(schema, {}) for _ in range(n)]
        if payload.pos != size: raise Bad("block has %d bytes left over" % (size - payload.pos))
        yield records, r.pos


def decode(data):
    return [rec for records, _ in blocks(data) for rec in records]


def prefix(data):
    """The complete blocks of data, and whether a cut block follows them. Anything else raises Bad."""
    out = []
    try:
        for records, end in blocks(data): out.append((records, end))
    except Cut: return out, True
    return out, False


def valid(s, names=None):
    """Whether s is a schema as Avro defines it: raises Bad when it is not."""
    names = {} if names is None else names
    if isinstance(s, list):
        for x in s: valid(x, names)
        return
    if isinstance(s, str):
        if s not in ("null", "boolean", "int", "long", "float", "double", "bytes", "string") and s not in names: raise Bad("unknown type %r" % s)
        return
    if not isinstance(s, dict) or "type" not in s: raise Bad("no schema: %r" % (s,))
    t = s["type"]
    if t == "array": return valid(s["items"], names)
    if t == "map": return valid(s["values"], names)
    if t != "record": return valid(t, names)
    ident(s.get("name"))
    if s["name"] in names: raise Bad("two types named %s" % s["name"])
    names[s["name"]] = s
    fields = [f["name"] for f in s["fields"]]
    if len(set(fields)) != len(fields): raise Bad("a field twice in %s" % s["name"])
    for f in s["fields"]:
        ident(f["name"])
        valid(f["type"], names)


def ident(n):
    if not isinstance(n, str) or not re.fullmatch("[A-Za-z_][A-Za-z0-9_]*", n): raise Bad("name %r" % (n,))
