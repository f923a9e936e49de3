"""Reading what a run prints: report blocks, statistics, and lines of its own."""
import re
from decimal import Decimal

UNITS = {"ns": 1, "µs": 1000, "us": 1000, "ms": 10 ** 6, "s": 10 ** 9}
END = re.compile(r"--- (PASS|FAIL)  (\S+) \((\d+(?:\.\d+)?)(ns|µs|us|ms|s)\)$")
STAT = re.compile(r"(\S+) +count=(\d+) +sum=(\d+) +avg=(\d+) +max=(\d+) +min=(\d+)$")


class Broken(Exception):
    """The text is not a sequence of whole blocks and other lines."""


class Block:
    def __init__(self, name, lines, verdict, total): self.name, self.lines, self.verdict, self.total = name, lines, verdict, total


def read(text, assertion=re.compile(r".* => .* => (true|false)$")):
    """(blocks, stats, other lines) of a run's output; raises Broken when blocks are torn or interleaved."""
    blocks, stats, other = [], {}, []
    lines = text.split("\n")
    if lines.pop() != "": raise Broken("the output does not end with its last line")
    i = 0
    while i < len(lines):
        line = lines[i]
        i += 1
        if line.startswith("=== TEST  "):
            name, body = line[10:], []
            while True:
                if i == len(lines): raise Broken("the block of %s does not end" % name)
                line = lines[i]
                i += 1
                if line.startswith("--- "): break
                if not assertion.match(line): raise Broken("line %r in the block of %s" % (line[:300], name))
                body.append(line)
            m = END.match(line)
            if not m or m[2] != name: raise Broken("the block of %s ends with %r" % (name, line[:300]))
            blocks.append(Block(name, body, m[1], int(Decimal(m[3]) * UNITS[m[4]])))
            continue
        m = STAT.match(line)
        if m:
            if m[1] in stats: raise Broken("two statistics of %s" % m[1])
            stats[m[1]] = dict(zip(("count", "sum", "avg", "max", "min"), map(int, m.groups()[1:])))
            continue
        if line.startswith("--- ") or "=== TEST" in line or " => " in line or "count=" in line: raise Broken("stray line %r" % line[:300])
        other.append(line)
    return blocks, stats, other


def statistics(samples):
    """The exact statistics of (name, nanoseconds) samples."""
    ms = {}
    for n, ns in samples: ms.setdefault(n, []).append(ns // 10 ** 6)
    return {n: {"count": len(v), "sum": sum(v), "avg": sum(v) // len(v), "max": max(v), "min": min(v)} for n, v in ms.items()}
