"""Builds what the checks run from /repo's current working tree, outside of it."""
import fcntl, os, subprocess
from .core import ROOT, REPO, HarnessError

TARGET = os.environ.get("AM_TARGET", os.path.join(ROOT, "target"))
STABLE, NIGHTLY = "stable-x86_64-unknown-linux-gnu", "nightly-x86_64-unknown-linux-gnu"


def cargo(args, toolchain=STABLE, env=None, cwd=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"): e.pop(k, None)
    e.update({"HOME": "/root", "PATH": "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
              "RUSTUP_TOOLCHAIN": toolchain, "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "CARGO_INCREMENTAL": "0"})
    e.update(env or {})
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = subprocess.run(["cargo"] + args, env=e, cwd=cwd or "/", stdin=subprocess.DEVNULL, capture_output=True, text=True, errors="replace")
    return r.returncode, r.stdout + r.stderr


def must(args, **kw):
    code, out = cargo(args, **kw)
    if code: raise HarnessError("build failed: cargo %s\n%s" % (" ".join(args), out[-4000:]))


OPT = ["--config", 'profile.dev.package."*".opt-level=2', "--config", 'profile.dev.debug="line-tables-only"']


def cli():
    """The real basjoofan binary, dev profile (overflow checks and debug assertions on), dependencies optimized."""
    must(["build", "--offline", "--manifest-path", REPO + "/Cargo.toml", "-p", "cmd", "--bin", "basjoofan", "--target-dir", TARGET + "/cli"] + OPT)
    return TARGET + "/cli/debug/basjoofan"


def probe():
    m = ["build", "--offline", "--manifest-path", ROOT + "/probe/Cargo.toml", "--target-dir", TARGET + "/probe"]
    code, out = cargo(m)
    if code:  # the record fields are not reachable as expected: observe records through their file only
        code, out = cargo(m + ["--no-default-features"])
        if code: raise HarnessError("build of the probe failed\n" + out[-4000:])
    return TARGET + "/probe/debug/probe"


def sanitized(kind):
    """The basjoofan binary under a sanitizer; std is rebuilt instrumented for ThreadSanitizer."""
    args = ["build", "--offline", "--manifest-path", REPO + "/Cargo.toml", "-p", "cmd", "--bin", "basjoofan",
            "--target", "x86_64-unknown-linux-gnu", "--target-dir", TARGET + "/" + kind] + OPT
    if kind == "thread": args += ["-Zbuild-std"]
    must(args, toolchain=NIGHTLY, env={"RUSTFLAGS": "-Zsanitizer=" + kind})
    return TARGET + "/%s/x86_64-unknown-linux-gnu/debug/basjoofan" % kind


MIRI = ["--manifest-path", ROOT + "/miri/Cargo.toml", "--target-dir", TARGET + "/miri"]
MIRI_ENV = {"XDG_CACHE_HOME": TARGET + "/cache"}


def miri():
    """The sources of the command, compiled for the Miri interpreter (and Miri's own standard library)."""
    must(["miri", "run", "--offline", "-q"] + MIRI + ["--", "eval", "1"], toolchain=NIGHTLY, env=dict(MIRI_ENV, MIRIFLAGS="-Zmiri-disable-isolation"))


def preload(name):
    so = TARGET + "/%s.so" % name
    src = os.path.join(ROOT, "mon", name + ".c")
    os.makedirs(TARGET, exist_ok=True)
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        tmp = "%s.%d" % (so, os.getpid())
        r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src, "-ldl", "-lpthread"], capture_output=True, text=True)
        if r.returncode: raise HarnessError(name + ": " + r.stderr)
        os.rename(tmp, so)
    return so


def shim(): return preload("shim")
def clock(): return preload("clock")
def fast(speed): return {"LD_PRELOAD": preload("fast"), "AM_SPEED": str(speed)}
