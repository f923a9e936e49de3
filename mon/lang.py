"""Comparing what the real library does with programs to the reference semantics."""
from . import model, probe, util


def expected(exprs, names=None):
    v, out, m = model.run(exprs, names)
    return v, out, m


def differs(step, v, out):
    """Why an observed step differs from the expected value (or model.Error) and printed text, or None."""
    if step.get("out", "") != out: return "printed %r, expected %r" % (step.get("out", ""), out)
    if isinstance(v, model.Error):
        if "err" not in step: return "gave %r where an error (%s) is expected" % (step, v)
        return None
    if "ok" not in step: return "gave %r where the value %r is expected" % ({k: step[k] for k in step if k in ("err", "perr")}, v)
    try: got = model.read_debug(step["ok"])
    except ValueError as e: return "gave an unreadable value %r (%s)" % (step["ok"][:300], e)
    if not model.same(got, v): return "gave %r, expected %r" % (got, v)
    try: t = model.text(v)
    except model.Unmodelled: return None
    if step["show"] != t: return "is shown as %r, expected %r" % (step["show"], t)
    return None


def size(e):
    if isinstance(e, tuple): return 1 + sum(size(x) for x in e if isinstance(x, (tuple, list)))
    if isinstance(e, list): return sum(size(x) for x in e)
    return 0


def run_text(ctx, p, text, exprs, names=None, what="", before=()):
    """Evaluates text (after the lines before) and compares it with the trees it was made from."""
    try: v, out, m = expected(exprs, names)
    except model.Unmodelled:
        ctx.count("unmodelled")
        return None
    steps, why = util.session(p, list(before) + [text])
    if steps is None:
        ctx.violation("%s%r: %s" % (what, text[:2000], why), {"text": text, "before": list(before)})
        return None
    for s in steps[:len(before)]: ctx.check("ok" in s, lambda: "setup of the case failed: %r" % (s,), {"before": list(before)})
    d = differs(steps[-1], v, out)
    ctx.check(d is None, lambda: "%s%r %s" % (what, text[:2000], d), {"text": text, "before": list(before), "step": steps[-1]})
    ctx.count("errors" if isinstance(v, model.Error) else "values")
    return v, out, m
