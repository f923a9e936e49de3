"""Reference semantics of the script language: values, operators, an interpreter over syntax trees,
and the text the project shows for values. Written from the properties, not from the implementation.

Values: None, bool, int, float, str, list, dict. Trees: tuples (kind, ...)."""
import math, re
from decimal import Decimal, Context

EXACT = Context(prec=1200)
MIN, MAX = -(1 << 63), (1 << 63) - 1
PLACEHOLDER = re.compile(r"\{\s*([a-zA-Z_][a-zA-Z0-9_]*)\s*\}")
TRIM = "".join(chr(c) for c in (9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680, *range(0x2000, 0x200b), 0x2028, 0x2029, 0x202f, 0x205f, 0x3000))


class Error(Exception):
    """The program ends with an evaluation error. about: what failed, as (kind, ...), where it is known."""
    about = None


def about(what, f, *args):
    try: return f(*args)
    except Error as e:
        if e.about is None: e.about = what
        raise


class Unmodelled(Exception):
    """The property does not fix what happens here."""


def kind(v):
    if v is None: return "null"
    if isinstance(v, bool): return "bool"
    if isinstance(v, int): return "int"
    if isinstance(v, float): return "float"
    if isinstance(v, str): return "str"
    return "arr" if isinstance(v, list) else "map"


def equal(a, b):
    """Structural, type-strict; not-a-number differs from itself."""
    k = kind(a)
    if k != kind(b): return False
    if k == "arr": return len(a) == len(b) and all(map(equal, a, b))
    if k == "map": return a.keys() == b.keys() and all(equal(a[x], b[x]) for x in a)
    return a == b


def same(a, b):
    """Identity of observed and expected values: like equal, but tells apart the sign of zero and accepts not-a-number."""
    k = kind(a)
    if k != kind(b): return False
    if k == "arr": return len(a) == len(b) and all(map(same, a, b))
    if k == "map": return a.keys() == b.keys() and all(same(a[x], b[x]) for x in a)
    if k == "float": return (a != a and b != b) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    return a == b


def shortest(x):
    """The shortest decimal that reads back as x; of two equally near ones the larger in size (as Rust prints it)."""
    d, exact = Decimal(repr(x)), EXACT.create_decimal(x)
    other = EXACT.normalize(EXACT.subtract(EXACT.multiply(exact, 2), d))
    if other != d and abs(other) > abs(d) and len(other.as_tuple().digits) <= len(EXACT.normalize(d).as_tuple().digits) and float(other) == x: return other
    return d


def positional(x):
    s = format(shortest(x), "f")
    if "." in s: s = s.rstrip("0").rstrip(".")
    return s


def float_text(x):
    if x != x: return "NaN"
    if math.isinf(x): return "inf" if x > 0 else "-inf"
    return positional(x)


def float_debug(x):
    if x != x or math.isinf(x): return float_text(x)
    if x != 0 and (abs(x) >= 1e16 or abs(x) < 1e-4):
        d = shortest(x).normalize()
        sign, digits, exp = d.as_tuple()
        ds = "".join(map(str, digits))
        e = exp + len(ds) - 1
        return ("-" if sign else "") + ds[0] + ("." + ds[1:] if len(ds) > 1 else "") + "e" + str(e)
    s = positional(x)
    return s if "." in s else s + ".0"


def string_debug(s):
    out = []
    for c in s:
        if c in "\"\\": out.append("\\" + c)
        elif c == "\n": out.append("\\n")
        elif c == "\t": out.append("\\t")
        elif c == "\r": out.append("\\r")
        elif c == "\0": out.append("\\0")
        elif " " <= c <= "~" or c in "éßñžЖ中文字日本語€£😀": out.append(c)
        else: raise Unmodelled("debug text of %r" % c)
    return '"%s"' % "".join(out)


def debug(v):
    k = kind(v)
    if k == "null": return "Null"
    if k == "int": return "Integer(%d)" % v
    if k == "float": return "Float(%s)" % float_debug(v)
    if k == "bool": return "Boolean(%s)" % str(v).lower()
    if k == "str": return "String(%s)" % string_debug(v)
    if k == "arr": return "Array([%s])" % ", ".join(map(debug, v))
    if len(v) > 1: raise Unmodelled("order of map entries")
    return "Map({%s})" % ", ".join("%s: %s" % (string_debug(a), debug(b)) for a, b in v.items())


def text(v):
    k = kind(v)
    if k == "null": return "null"
    if k == "int": return str(v)
    if k == "float": return float_text(v)
    if k == "bool": return str(v).lower()
    if k == "str": return v
    if k == "arr": return "[%s]" % ", ".join(map(debug, v))
    return debug(v)[4:-1]


def read_debug(s):
    """Parses the debug text of a value back; raises ValueError when it is something else."""
    pos = 0

    def expect(t):
        nonlocal pos
        if not s.startswith(t, pos): raise ValueError("expected %r at %d of %r" % (t, pos, s[:200]))
        pos += len(t)

    def quoted():
        nonlocal pos
        expect('"')
        out = []
        while s[pos] != '"':
            c = s[pos]
            pos += 1
            if c != "\\":
                out.append(c)
                continue
            c = s[pos]
            pos += 1
            if c == "u":
                end = s.index("}", pos)
                out.append(chr(int(s[pos + 1:end], 16)))
                pos = end + 1
            else: out.append({"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", '"': '"', "'": "'"}[c])
        pos += 1
        return "".join(out)

    def until():
        nonlocal pos
        end = s.index(")", pos)
        t = s[pos:end]
        pos = end + 1
        return t

    def value():
        nonlocal pos
        if s.startswith("Null", pos):
            pos += 4
            return None
        if s.startswith("Integer(", pos):
            pos += 8
            return int(until())
        if s.startswith("Float(", pos):
            pos += 6
            return float(until())
        if s.startswith("Boolean(", pos):
            pos += 8
            return {"true": True, "false": False}[until()]
        if s.startswith("String(", pos):
            pos += 7
            v = quoted()
            expect(")")
            return v
        if s.startswith("Array([", pos):
            pos += 7
            out = []
            while not s.startswith("]", pos):
                if out: expect(", ")
                out.append(value())
            expect("])")
            return out
        expect("Map({")
        out = {}
        while not s.startswith("}", pos):
            if out: expect(", ")
            k = quoted()
            expect(": ")
            if k in out: raise ValueError("key twice")
            out[k] = value()
        expect("})")
        return out
    try: v = value()
    except (IndexError, KeyError) as e: raise ValueError(str(e))
    if pos != len(s): raise ValueError("text after the value: %r" % s[pos:pos + 50])
    return v


# ---- operators

def ranged(n):
    if not MIN <= n <= MAX: raise Error("overflow")
    return n


def fdiv(a, b):
    if b == 0:
        if a == 0 or a != a: return math.nan
        return math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


def fmod(a, b):
    if a != a or b != b or math.isinf(a) or b == 0: return math.nan
    return math.fmod(a, b)


def fmul(a, b): return a * b


def binary(op, a, b):
    ka, kb = kind(a), kind(b)
    if op == "==": return equal(a, b)
    if op == "!=": return not equal(a, b)
    num = ka in ("int", "float") and kb in ("int", "float")
    if op in ("<", ">", "<=", ">="):
        if ka == kb == "str": a, b = a.encode(), b.encode()
        elif ka == kb == "int": pass
        elif num: a, b = float(a), float(b)
        else: return False
        return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
    if op in ("^", "|", "&", "<<", ">>"):
        if not ka == kb == "int": raise Error("type")
        if op == "^": return a ^ b
        if op == "|": return a | b
        if op == "&": return a & b
        if not 0 <= b < 64: raise Error("shift")
        if op == ">>": return a >> b
        n = (a << b) & ((1 << 64) - 1)
        return n - (1 << 64) if n >> 63 else n
    if op == "+" and ka == kb == "str": return a + b
    if not num: raise Error("type")
    if ka == kb == "int":
        if op == "+": return ranged(a + b)
        if op == "-": return ranged(a - b)
        if op == "*": return ranged(a * b)
        if b == 0: raise Error("zero")
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0): q = -q
        if op == "%":
            ranged(q)
            return a - q * b
        return ranged(q)
    a, b = float(a), float(b)
    if op == "+": return a + b
    if op == "-": return a - b
    if op == "*": return a * b
    return fdiv(a, b) if op == "/" else fmod(a, b)


def unary(op, v):
    k = kind(v)
    if op == "-":
        if k == "int": return ranged(-v)
        if k == "float": return -v
        raise Error("type")
    if k == "int": return ~v
    return v is None or v is False


def fail(why): raise Error(why)


def placeholders(template, texts):
    """Replaces the placeholders in order; counts must match."""
    parts, last, i = [], 0, 0
    found = list(PLACEHOLDER.finditer(template))
    if len(found) != len(texts): raise Error("count")
    for m, t in zip(found, texts):
        parts += [template[last:m.start()], t]
        last = m.end()
    return "".join(parts) + template[last:]


def falsy(v): return v is None or v is False


class Machine:
    """Evaluates trees; keeps the bindings and what was printed."""

    def __init__(self, names=None, call=None):
        self.names = dict(names or {})
        self.out = []
        self.call = call
        self.steps = 0

    def block(self, exprs):
        v = None
        for e in exprs: v = self.eval(e)
        return v

    def eval(self, e):
        k = e[0]
        self.steps += 1
        if k in ("int", "bool", "str"): return e[1]
        if k == "float": return e[2]
        if k == "null": return None
        if k == "paren": return self.eval(e[1])
        if k == "arr": return [self.eval(x) for x in e[1]]
        if k == "map":
            out = {}
            for a, b in e[1]:
                key = self.eval(a)
                value = self.eval(b)
                out[text(key)] = value
            return out
        if k == "id":
            if e[1] not in self.names: about(("ident", e[1]), fail, "ident")
            return self.names[e[1]]
        if k == "let":
            v = self.eval(e[2])
            self.names[e[1]] = v
            return v
        if k == "un":
            v = self.eval(e[2])
            return about(("un", e[1], v), unary, e[1], v)
        if k == "bin":
            op = e[1]
            a = self.eval(e[2])
            if op == "||": return self.eval(e[3]) if falsy(a) else a
            if op == "&&": return a if falsy(a) else self.eval(e[3])
            b = self.eval(e[3])
            return about(("bin", op, a, b), binary, op, a, b)
        if k == "index":
            a = self.eval(e[1])
            i = self.eval(e[2])
            if kind(a) == "arr" and kind(i) == "int": return a[i] if 0 <= i < len(a) else None
            if kind(a) == "map": return a.get(text(i))
            about(("index", a), fail, "index")
        if k == "field":
            a = self.eval(e[1])
            if kind(a) == "map": return a.get(e[2])
            about(("field", a), fail, "field")
        if k == "if": return self.block(e[3] if falsy(self.eval(e[1])) else e[2])
        if k == "call":
            args = [self.eval(x) for x in e[2]]
            return about(("call", e[1], args), self.native, e[1], args)
        raise AssertionError(k)

    def native(self, name, args):
        if self.call:
            handled, v = self.call(self, name, args)
            if handled: return v
        if name in ("format", "print", "println"):
            if not args or kind(args[0]) != "str": raise Error("format")
            if len(PLACEHOLDER.findall(args[0])) != len(args) - 1: raise Error("count")
            s = placeholders(args[0], [text(x) for x in args[1:]])
            if name == "format": return s
            self.out.append(s + ("\n" if name == "println" else ""))
            return None
        if name == "length":
            if len(args) != 1: raise Error("count")
            k = kind(args[0])
            if k == "str": return len(args[0].encode())
            if k in ("arr", "map"): return len(args[0])
            raise Error("type")
        if name == "append":
            if not args or kind(args[0]) != "arr": raise Error("append")
            return args[0] + args[1:]
        raise Error("function")


# ---- rendering trees as text

PREC = {"||": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "==": 6, "!=": 6, "<": 7, ">": 7, "<=": 7, ">=": 7, "<<": 8, ">>": 8,
        "+": 9, "-": 9, "*": 10, "/": 10, "%": 10}
UNARY, POSTFIX, ATOM = 11, 13, 20


def level(e):
    k = e[0]
    if k == "bin": return PREC[e[1]]
    if k == "un": return UNARY
    if k in ("call", "index", "field"): return POSTFIX
    if k in ("let", "if"): return 0
    return ATOM


def tokens(e, full=False, extra=None):
    """Tokens of a tree: with only the needed parentheses, or with all of them (full); extra() adds redundant ones."""
    k = e[0]

    def sub(x, need):
        t = tokens(x, full, extra)
        if x[0] == "paren": return t
        if level(x) < need or (full and x[0] in ("bin", "un", "index", "field", "call", "let", "if")) or (extra and extra()): return ["("] + t + [")"]
        return t

    def listed(xs):
        out = []
        for i, x in enumerate(xs):
            if i: out.append(",")
            out += sub(x, 0)
        return out

    def body(xs):
        out = ["{"]
        for i, x in enumerate(xs):
            if i: out.append(";")
            out += sub(x, 0)
        return out + ["}"]
    if k == "int": return [str(e[1])]
    if k == "float": return [e[1]]
    if k == "bool": return [str(e[1]).lower()]
    if k == "str": return ['"%s"' % e[1]]
    if k == "null": return ["if", "(", "false", ")", "{", "}"]
    if k == "id": return [e[1]]
    if k == "paren": return ["("] + tokens(e[1], full, extra) + [")"]
    if k == "arr": return ["["] + listed(e[1]) + ["]"]
    if k == "map":
        out = ["{"]
        for i, (a, b) in enumerate(e[1]):
            if i: out.append(",")
            out += sub(a, 0) + [":"] + sub(b, 0)
        return out + ["}"]
    if k == "index": return sub(e[1], POSTFIX) + ["["] + sub(e[2], 0) + ["]"]
    if k == "field":
        left = e[1]
        t = sub(left, POSTFIX)
        if left[0] in ("int", "float") and t[0] != "(": t = ["("] + t + [")"]
        return t + [".", e[2]]
    if k == "let": return ["let", e[1], "="] + sub(e[2], 0)
    if k == "un": return [e[1]] + sub(e[2], UNARY)
    if k == "bin":
        p = PREC[e[1]]
        return sub(e[2], p) + [e[1]] + sub(e[3], p + 1)
    if k == "if":
        out = ["if", "("] + sub(e[1], 0) + [")"] + body(e[2])
        if e[3]: out += ["else"] + body(e[3])
        return out
    if k == "call": return [e[1], "("] + listed(e[2]) + [")"]
    raise AssertionError(k)


def wordy(c): return c.isalnum() or c == "_" or c == "."


def needs_space(a, b):
    """Whether two tokens written next to each other would be read as something else."""
    if wordy(a[-1]) and wordy(b[0]) and a != "." and b != ".": return True
    if (a == "." and b[0].isdigit()) or (b == "." and a[0].isdigit()): return True
    return (a + b[0]) in ("==", "!=", "||", "&&", "<=", ">=", "<<", ">>") or a + b[0] in ("===",)


def layout(toks, rng=None, style="plain"):
    """Joins tokens: plain (one space where usual), tight (none unless needed), loose (random whitespace)."""
    out = [toks[0]] if toks else []
    for a, b in zip(toks, toks[1:]):
        if style == "tight": sep = " " if needs_space(a, b) else ""
        elif style == "plain": sep = " "
        else:
            sep = rng.choice(["", " ", "\n", "\t", "  \n ", "\r\n", " \u00a0", "\u3000", "\n\n"])
            if not sep and needs_space(a, b): sep = "\n"
        out.append(sep + b)
    return "".join(out)


def program(exprs, rng=None, style="plain", full=False, extra=None):
    toks = []
    for e in exprs: toks += tokens(e, full, extra) + [";"]
    return layout(toks, rng, style)


def run(exprs, names=None):
    """(value or Error, printed text, machine) of a program under the reference semantics."""
    m = Machine(names)
    try: v = m.block(exprs)
    except Error as e: v = e
    except RecursionError: raise Unmodelled("depth")
    return v, "".join(m.out), m
