"""Constants appearing in the source under test, fed to the generators so that boundaries written in the code are exercised.
Only the workload depends on them; no oracle does."""
import functools, glob, re
from .core import REPO


@functools.lru_cache(None)
def _source():
    out = []
    for path in sorted(glob.glob(REPO + "/lib/src/**/*.rs", recursive=True) + glob.glob(REPO + "/cmd/src/*.rs")):
        try: text = open(path, encoding="utf-8").read()
        except (OSError, UnicodeDecodeError): continue
        out.append(re.split(r"#\[(?:cfg\()?test", text)[0])
    return "\n".join(out)


@functools.lru_cache(None)
def ints(limit=1 << 63):
    """Integer constants of the source and their neighbours."""
    found = set()
    for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?(?![\w.])", _source()):
        try: n = int(m.group(1).replace("_", ""), 0 if m.group(1)[:2] in ("0x", "0b") else 10)
        except ValueError: continue
        found |= {n - 1, n, n + 1}
    for m in re.finditer(r"(\d+)\s*(\*|<<)\s*(\d+)", _source()):
        a, b = int(m.group(1)), int(m.group(3))
        n = a * b if m.group(2) == "*" else (a << b if b < 63 else 0)
        found |= {n - 1, n, n + 1}
    return tuple(sorted(n for n in found if 0 <= n < limit))


@functools.lru_cache(None)
def strings():
    """Text constants of the source: whole string and character literals, and the words in them."""
    found = set()
    for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', _source()):
        s = m.group(1)
        try: s = s.encode("latin-1", "backslashreplace").decode("unicode_escape") if "\\" in s else s
        except UnicodeDecodeError: continue
        if len(s) <= 60:
            found.add(s)
            for w in re.findall(r"[A-Za-z_][A-Za-z0-9_/.-]*", s): found.add(w)
    for m in re.finditer(r"'((?:[^'\\\n]|\\.))'", _source()): found.add(m.group(1)[-1:])
    return tuple(sorted(s for s in found if s))


def words():
    """Identifier-like constants."""
    return tuple(s for s in strings() if re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", s))


def large(low, high):
    """Large constants of the source, as sizes."""
    return tuple(n for n in ints(high + 1) if n > low)


def sizes(cap):
    """Sizes worth trying: usual buffer boundaries and the constants of the source."""
    base = set(ints(cap + 1))
    for p in (6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 20):
        base |= {(1 << p) - 1, 1 << p, (1 << p) + 1}
    return tuple(sorted(n for n in base if 0 <= n <= cap))
