"""Random syntax trees of the script language, mostly well typed."""
from . import dictionary, model

WORDS = ["a", "b", "c", "x", "y", "name", "id", "host", "value", "item_1", "_u", "Z9", "status", "body", "token", "resp",
         "_", "__", "_0", "i", "n", "X", "HOST", "T", "e", "E5", "f64", "self", "it", "args", "result", "last", "env", "line", "index", "test_", "let1", "truex", "userName", "access_token", "a1b2c3", "LongerVariableName"]
KEYWORDS = {"true", "false", "request", "let", "if", "else", "test"}
NATIVES = {"println", "print", "format", "length", "append"}
STRINGS = ["", "a", "b", "ab", "abc", "A", "Z", "0", "1", "10", "é", "ß", "日本", "😀", " ", "  x ", "a b", "null", "true", "1.5",
           "a,b", "it's", "\\", "\\n", "tab\there", "line\nbreak", "{", "}", "{}", "{x", "{1}", "x}", "$", "`", "[1]", "a=b&c=d", "%41"]
INTS = [0, 1, -1, 2, -2, 3, 5, 7, -7, 8, 10, 31, 32, 33, 62, 63, 64, 65, 100, 127, 128, 255, 256, 1000, -1000, 65535, 65536, (1 << 31) - 1, 1 << 31,
        -(1 << 31), (1 << 32) - 1, 1 << 32, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, (1 << 62), model.MAX - 1, model.MAX, -model.MAX, model.MIN]
FLOATS = [0.0, 1.0, 0.5, 1.5, 2.0, 2.5, -0.0, -1.0, -1.5, 3.14159, 0.1, 0.2, 100.0, 1e10, 1e15, 1e16, 1e17, 123456.789, 0.001, 1e-5, 1e-7,
          9007199254740993.0, 9223372036854775807.0, 1e300, 1.7976931348623157e308, 5e-324, 4.35, -2.0]


def lit(v):
    """A tree whose value is v (not-a-number and infinities are made by division)."""
    k = model.kind(v)
    if k == "null": return ("null",)
    if k == "bool": return ("bool", v)
    if k == "int":
        if v == model.MIN: return ("bin", "-", ("un", "-", ("int", model.MAX)), ("int", 1))
        return ("int", v) if v >= 0 else ("un", "-", ("int", -v))
    if k == "float":
        import math
        if v != v: return ("bin", "/", ("float", "0.0", 0.0), ("float", "0.0", 0.0))
        if math.isinf(v): return ("bin", "/", lit(math.copysign(1.0, v)), ("float", "0.0", 0.0))
        s = model.positional(abs(v))
        if "." not in s: s += ".0"
        return ("un", "-", ("float", s, abs(v))) if math.copysign(1, v) < 0 else ("float", s, v)
    if k == "str": return ("str", v)
    if k == "arr": return ("arr", [lit(x) for x in v])
    return ("map", [(("str", a), lit(b)) for a, b in v.items()])


def string(rng):
    r = rng.random()
    if r < .6: return rng.choice(STRINGS)
    if r < .8: return rng.choice([s for s in dictionary.strings() if '"' not in s] or ["q"])
    return "".join(rng.choice("abcXYZ019 _-./:é日😀{}") for _ in range(rng.randint(0, 12)))


def integer(rng):
    r = rng.random()
    if r < .55: return rng.choice(INTS)
    if r < .7: return rng.choice(dictionary.ints()) * rng.choice((1, 1, -1))
    if r < .9: return rng.randint(-20, 20)
    return rng.randint(model.MIN, model.MAX)


def floating(rng):
    r = rng.random()
    if r < .7: return rng.choice(FLOATS)
    if r < .85: return rng.randint(-1000, 1000) / rng.choice((2, 4, 8, 10, 100, 3))
    return rng.uniform(-1e6, 1e6)


def value(rng, depth=2):
    r = rng.random()
    if r < .25: return integer(rng)
    if r < .4: return floating(rng)
    if r < .6: return string(rng)
    if r < .7: return rng.random() < .5
    if r < .75 or depth == 0: return None
    if r < .88: return [value(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return {rng.choice(WORDS + STRINGS): value(rng, depth - 1) for _ in range(rng.randint(0, 2))}


def name(rng):
    while True:
        w = rng.choice(WORDS) if rng.random() < .8 else rng.choice(dictionary.words() or WORDS)
        if w not in KEYWORDS and w not in NATIVES and len(w) < 20: return w


class Gen:
    """names: variables usable, with the kind of their value."""

    def __init__(self, rng, effects=True, lets=True, risky=.08):
        self.rng, self.effects, self.lets, self.risky = rng, effects, lets, risky
        self.names = {}
        self.marker = 0
        self.safe = 0

    def effect(self, e):
        """e, preceded by printing a fresh marker."""
        self.marker += 1
        p = ("call", self.rng.choice(["print", "println"]), [("str", "<%d>" % self.marker)])
        r = self.rng.random()
        if r < .6: return ("index", ("arr", [p, e]), ("int", 1))
        if r < .8: return ("if", p, [("int", 0)], [e])
        return ("bin", "||", p, e)

    def pick(self, kind):
        have = [n for n, k in self.names.items() if k == kind]
        return ("id", self.rng.choice(have)) if have else None

    def expr(self, kind=None, depth=4):
        rng = self.rng
        if rng.random() < self.risky: kind = None
        kind = kind or rng.choice(["int", "int", "int", "float", "str", "str", "bool", "bool", "null", "arr", "map"])
        e = self._expr(kind, depth)
        if self.effects and rng.random() < .15: e = self.effect(e)
        elif self.lets and depth < 3 and rng.random() < .04: e = self.let(e, kind)
        return e

    def let(self, e, kind):
        n = name(self.rng)
        self.names[n] = kind
        return ("let", n, e)

    def _expr(self, kind, depth):
        rng = self.rng
        if rng.random() < .2:
            v = self.pick(kind)
            if v: return v
        if depth <= 0: return self.leaf(kind)
        d = depth - 1
        r = rng.random()
        if r < .12: return ("if", self.expr(None if rng.random() < .3 else "bool", d), self.block(kind, d), self.block(kind, d) if kind != "null" or rng.random() < .5 else [])
        if r < .18: return ("bin", "||", self.expr(rng.choice(["null", "bool", kind]), d), self.expr(kind, d))
        if r < .24: return ("bin", "&&", self.expr(rng.choice(["bool", "int", kind]), d), self.expr(kind, d))
        if r < .30:
            n = rng.randint(1, 3)
            i = rng.randrange(n)
            return ("index", ("arr", [self.expr(kind if j == i else None, d) for j in range(n)]), lit(i if rng.random() < .9 else rng.choice([-1, n, n + 5])))
        if r < .36:
            k = rng.choice(WORDS)
            m = ("map", [(("str", k), self.expr(kind, d)), (self.expr("str", 0), self.expr(None, 0))][:rng.randint(1, 2)])
            return ("field", m, k) if rng.random() < .5 else ("index", m, ("str", k))
        if kind == "int":
            if r < .42: return ("un", rng.choice("-!"), self.expr("int", d))
            if r < .5: return ("call", "length", [self.expr(rng.choice(["str", "arr", "map"]), d)])
            if r < .95: return ("bin", rng.choice(["+", "-", "*", "/", "%", "^", "|", "&", "<<", ">>"]), self.expr("int", d), self.expr("int", d))
        elif kind == "float":
            if r < .42: return ("un", "-", self.expr("float", d))
            a, b = rng.choice([("float", "float"), ("int", "float"), ("float", "int")])
            if r < .95: return ("bin", rng.choice("+-*/%"), self.expr(a, d), self.expr(b, d))
        elif kind == "bool":
            if r < .42: return ("un", "!", self.expr(rng.choice(["bool", "null", "str", "arr"]), d))
            if r < .95:
                op = rng.choice(["==", "!=", "<", ">", "<=", ">="])
                k = rng.choice(["int", "float", "str", "int"]) if op not in ("==", "!=") else rng.choice(["int", "str", "bool", "arr", "map", "null", "float"])
                return ("bin", op, self.expr(k, d), self.expr(k, d))
        elif kind == "str":
            if r < .6: return ("bin", "+", self.expr("str", d), self.expr("str", d))
            if r < .95:
                n = rng.randint(0, 3)
                parts = [self.safe_text()]
                for _ in range(n): parts += ["{%s%s%s}" % (rng.choice(["", " "]), name(rng), rng.choice(["", " "])), self.safe_text()]
                args = [("str", "".join(parts))] + [self.expr(None, min(d, 1)) for _ in range(n)]
                return ("call", "format", args)
        elif kind == "arr":
            if r < .7: return ("arr", [self.expr(None, d) for _ in range(rng.randint(0, 3))])
            return ("call", "append", [self.expr("arr", d)] + [self.expr(None, d) for _ in range(rng.randint(0, 2))])
        elif kind == "map":
            return ("map", [(self.expr(rng.choice(["str", "str", "int"]), min(d, 1)), self.expr(None, d)) for _ in range(rng.randint(0, 3))])
        elif kind == "null" and r < .6:
            return ("call", rng.choice(["print", "println"]), [("str", self.safe_text())])
        return self.leaf(kind)

    def safe_text(self): return self.rng.choice(["", "p", "q ", "é", "{ }", "}{", " - ", "{1}", "{{", "日"])

    def leaf(self, kind):
        rng = self.rng
        if kind == "int": return lit(integer(rng))
        if kind == "float": return lit(floating(rng))
        if kind == "str": return lit(string(rng))
        if kind == "bool": return lit(rng.random() < .5)
        if kind == "null": return lit(None)
        if kind == "arr": return ("arr", [self.leaf(rng.choice(["int", "str", "bool"])) for _ in range(rng.randint(0, 2))])
        return ("map", [(lit(rng.choice(WORDS)), self.leaf(rng.choice(["int", "str"]))) for _ in range(rng.randint(0, 2))])

    def block(self, kind, depth):
        n = 1 if self.rng.random() < .7 else 2
        return [self.expr(None, min(depth, 1)) for _ in range(n - 1)] + [self.expr(kind, depth)]

    def program(self, n):
        out = []
        for _ in range(n):
            k = self.rng.choice(["int", "float", "str", "bool", "arr", "map", "null"])
            e = self.expr(k, self.rng.randint(1, 4))
            out.append(self.let(e, k) if self.rng.random() < .5 else e)
        return out
