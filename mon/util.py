"""Small things shared by the checks."""
import os, shutil, tempfile
from . import model, probe
from .core import Inconclusive


def session(p, lines, **kw):
    """Runs lines in one probe session; returns (steps, reply) or (None, why)."""
    extra = {k: kw.pop(k) for k in ("writes", "plan", "times") if k in kw}
    reply = p.call(dict(op="session", lines=lines, **extra), **kw)
    why = probe.bad(reply)
    return (None, why) if why else (reply["steps"], reply)


def outcome(step):
    """('ok', value) | ('err', text) | ('perr', text) of a step."""
    if "ok" in step: return "ok", model.read_debug(step["ok"])
    if "err" in step: return "err", step["err"]
    return "perr", step["perr"]


class Scratch:
    """A directory that is removed afterwards."""

    def __init__(self, prefix="amscratch."): self.path = tempfile.mkdtemp(prefix=prefix)
    def __enter__(self): return self.path
    def __exit__(self, *a): shutil.rmtree(self.path, ignore_errors=True)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f: f.write(text if isinstance(text, bytes) else text.encode())
    return path
