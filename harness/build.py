"""Builds the monitored variants of the interpreter from /repo's working tree."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.environ.get("VERIF_TARGET", os.path.join(VERIF, "target"))

COMMON = "--cfg ruruby_monitor -Copt-level=1 -Cdebug-assertions=on -Coverflow-checks=on"
VARIANTS = {
    # name: (RUSTFLAGS, cargo args, path of the binary)
    "mon": (COMMON, [], "debug/ruruby"),
    "asan": (
        COMMON + " -Zsanitizer=address -Cllvm-args=-asan-stack=0",
        ["--target", "x86_64-unknown-linux-gnu"],
        "x86_64-unknown-linux-gnu/debug/ruruby",
    ),
}


class BuildError(Exception):
    pass


def source_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "bench", "quine"))
        for f in sorted(files):
            if f.endswith((".rs", ".rb", ".toml", ".lock")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def env():
    e = dict(os.environ)
    e.update(
        RUSTUP_TOOLCHAIN="nightly-2023-12-28",
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="1",
        CARGO_PROFILE_DEV_DEBUG="line-tables-only",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        HOME="/root",
    )
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def build(variant):
    """Returns the path of the binary, rebuilt when /repo's sources changed."""
    flags, args, out = VARIANTS[variant]
    tdir = os.path.join(TARGET, variant)
    os.makedirs(tdir, exist_ok=True)
    binary = os.path.join(tdir, out)
    stamp = os.path.join(tdir, "source.sha256")
    with open(os.path.join(tdir, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = source_hash() + " " + flags
        try:
            have = open(stamp).read()
        except OSError:
            have = ""
        if have == want and os.path.exists(binary):
            return binary
        # cargo goes by modification times, which a fresh checkout does not keep: force the crates of /repo.
        for root, dirs, _ in os.walk(tdir):
            if os.path.basename(root) == ".fingerprint":
                for d in list(dirs):
                    if d.startswith("ruruby"):
                        shutil.rmtree(os.path.join(root, d), ignore_errors=True)
                dirs[:] = []
            elif root[len(tdir):].count("/") > 3:
                dirs[:] = []
        if os.path.exists(stamp):
            os.remove(stamp)
        e = env()
        e["CARGO_TARGET_DIR"] = tdir
        e["RUSTFLAGS"] = flags
        t = time.time()
        r = subprocess.run(
            ["cargo", "build", "--offline", "-p", "ruruby", "--bin", "ruruby"] + args,
            cwd=REPO, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        )
        if r.returncode != 0 or not os.path.exists(binary):
            sys.stdout.write(r.stdout.decode("utf8", "replace")[-4000:])
            raise BuildError("build of variant %s failed" % variant)
        with open(stamp, "w") as f:
            f.write(want)
        print("built %s in %.1f s" % (variant, time.time() - t), file=sys.stderr)
    return binary


def reoracle():
    """Builds the program that asks the regular expression engine directly."""
    tdir = os.path.join(TARGET, "reoracle")
    os.makedirs(tdir, exist_ok=True)
    with open(os.path.join(tdir, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        e = env()
        e["CARGO_TARGET_DIR"] = tdir
        src = os.path.join(tdir, "src")     # cargo may rewrite the lock file: build from a copy
        shutil.rmtree(src, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, "harness", "reoracle"), src)
        shutil.copyfile(os.path.join(REPO, "Cargo.lock"), os.path.join(src, "Cargo.lock"))
        r = subprocess.run(["cargo", "build", "--offline", "--release"], cwd=src, env=e,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        binary = os.path.join(tdir, "release", "reoracle")
        if r.returncode != 0 or not os.path.exists(binary):
            sys.stdout.write(r.stdout.decode("utf8", "replace")[-4000:])
            raise BuildError("build of reoracle failed")
    return binary


if __name__ == "__main__":
    for v in sys.argv[1:] or list(VARIANTS):
        print(build(v))
    if not sys.argv[1:]:
        print(reoracle())
