"""C25: statistics are exact for every sequence of samples."""
import re
from mon import build as B, dictionary, gen, probe

RULE = ("sequences of (name, milliseconds) samples - few names and many samples, rising, falling, constant, zero and huge values, permuted - added to the real statistics; its text is compared "
        "with exact arithmetic, also at intermediate points. Non-trivial: a distinct sequence with at least two samples.")
FLOOR = 500
BUDGET = {"quick": 12, "thorough": 240}
BIG = [0, 1, 2, 9, 10, 11, 99, 100, 999, 1000, 1001, 59999, 60000, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 53) + 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, 10 ** 25]


def build(): B.probe()
def setup(ctx): return {"p": probe.Probe()}
def teardown(env): env["p"].stop()


def expected(adds):
    out = {}
    for n, v in adds: out.setdefault(n, []).append(v)
    return {n: {"count": len(v), "sum": sum(v), "avg": sum(v) // len(v), "max": max(v), "min": min(v)} for n, v in out.items()}


def read(text):
    """name -> fields of the shown statistics; None when a line is not of that form."""
    out = {}
    for line in text.split("\n"):
        if not line.strip(): continue
        f = {k: int(v) for k, v in re.findall(r"(\w+)=(-?\d+)", line)}
        name = line.split(None, 1)[0]
        if name in out or set(f) != {"count", "sum", "avg", "max", "min"}: return None
        out[name] = f
    return out


def judge(ctx, env, adds, every=0):
    reply = env["p"].call({"op": "stats", "adds": [[n, str(v)] for n, v in adds], "every": every})
    why = probe.bad(reply)
    replay = {"adds": adds[:200], "reply": reply}
    if not ctx.check(why is None, lambda: "adding %r: %s" % (adds[:20], why), replay): return
    for k, text in [[len(adds), reply["show"]]] + reply["shows"]:
        want, got = expected(adds[:k]), read(text)
        ctx.check(got == want, lambda: "after %d samples %r: shown %r, exact %r" % (k, adds[:12], text[:600], want), replay)
        ctx.count("texts")
    ctx.count("samples", len(adds))
    ctx.peak("samples_per_name", max(v["count"] for v in expected(adds).values()) if adds else 0)
    ctx.seen(tuple(adds), adds[:5], len(adds) > 1)


def directed(ctx, env, w, nw):
    seqs = [[("a", v)] for v in BIG] + [[("a", v), ("a", u)] for v in BIG for u in BIG] + [[("a", v), ("b", u), ("a", x)] for v in (0, 1, 5) for u in (0, 3) for x in (0, 1, 9)]
    for n in dictionary.sizes(3000): seqs.append([("a", (i * 7919) % 1000) for i in range(n)])
    for n in dictionary.ints(1 << 62): seqs.append([("a", n), ("a", 1), ("b", n), ("a", n + 3)])
    seqs += [[(w_, i) for i, w_ in enumerate(sorted(set(gen.WORDS) | set(dictionary.words())))], []]
    for i, s in enumerate(seqs):
        if i % nw == w: judge(ctx, env, s, every=1 if len(s) < 20 else 97)


def case(ctx, rng, env):
    names = [gen.name(rng) for _ in range(rng.choice([1, 1, 2, 3, 10]))]
    n = rng.choice([2, 3, 5, 10, 50, 300])
    r = rng.random()
    if r < .3: vals = [rng.choice(BIG) for _ in range(n)]
    elif r < .6: vals = [rng.randint(0, 5000) for _ in range(n)]
    elif r < .7: vals = sorted(rng.randint(0, 5000) for _ in range(n))
    elif r < .8: vals = sorted((rng.randint(1, 5000) for _ in range(n)), reverse=True)
    elif r < .9: vals = [rng.randint(0, 2)] * n
    else: vals = [rng.choice([0, 0, 1, rng.getrandbits(60)]) for _ in range(n)]
    judge(ctx, env, [(rng.choice(names), v) for v in vals], every=rng.choice([0, 1, 7]) if n < 60 else 0)
