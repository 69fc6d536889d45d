"""Compile /repo's crate with the compiler driver and load what it dumps."""
import atexit
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
FOLLOW = "core::option,core::result,core::ops,core::convert,core::bool,core::mem,core::cmp"
FEATURES = ["default-language", "ignore-incomplete-directories", "ignore-incomplete-marks", "ignore-invalid-checksums"]

_tmp = []


def scratch():
    d = tempfile.mkdtemp(prefix="verif.")
    _tmp.append(d)
    return d


@atexit.register
def _clean():
    for d in _tmp:
        shutil.rmtree(d, ignore_errors=True)


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def environment():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_BUILD", "RUSTFLAGS", "CARGO_ENCODED", "RUSTC")) or k in ("CARGO_TARGET_DIR",):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def driver():
    """The driver's executable, built from its committed source when it is not there."""
    src = os.path.join(HERE, "driver")
    h = hashlib.sha256()
    for f in ("Cargo.toml", "src/main.rs"):
        h.update(open(os.path.join(src, f), "rb").read())
    base = os.environ.get("VERIF_CACHE", os.path.join(src, "target"))
    exe = os.path.join(base, "driver-" + h.hexdigest()[:16])
    if os.path.exists(exe):
        return exe
    try:
        os.makedirs(base, exist_ok=True)
    except OSError:
        base = scratch()
        exe = os.path.join(base, "driver")
    td = tempfile.mkdtemp(prefix="build.", dir=base)
    try:
        r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--quiet", "--manifest-path",
                            os.path.join(src, "Cargo.toml"), "--target-dir", td],
                           env=environment(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write(r.stdout)
            raise SystemExit("the compiler driver does not build")
        os.replace(os.path.join(td, "debug", "driver"), exe)
    finally:
        shutil.rmtree(td, ignore_errors=True)
    return exe


class BuildError(Exception):
    pass


def produce(features=()):
    """Path of the dump for one feature set."""
    d = scratch()
    out = os.path.join(d, "dump.json")
    e = environment()
    e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    e["DUMP_OUT"] = out
    e["DUMP_FOLLOW"] = FOLLOW
    e["RUSTC_WORKSPACE_WRAPPER"] = driver()
    cmd = ["cargo", "+nightly", "check", "--lib", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
           "--target-dir", os.path.join(d, "target")]
    lock = os.path.join(REPO, "Cargo.lock")
    had = os.path.exists(lock)
    if features:
        cmd += ["--features", ",".join(features)]
    r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not had and os.path.exists(lock):
        os.remove(lock)
    shutil.rmtree(os.path.join(d, "target"), ignore_errors=True)
    if r.returncode or not os.path.exists(out):
        raise BuildError(r.stdout)
    return out


def load(features=()):
    import mir
    f = os.environ.get("VERIF_DUMP" if not features else "VERIF_DUMP_ALL" if tuple(features) == tuple(FEATURES) else "")
    return mir.Dump(f or produce(features))


if __name__ == "__main__":
    print(driver())
