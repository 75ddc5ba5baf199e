"""Produces the typed program of the current /repo: builds the driver, lays out a workspace and
type-checks every crate through the driver, which writes one JSON file per crate.

Nothing of /repo is executed except its proc-macro crate, which rustc itself needs for expansion.

usage: extract.py [REPO]      prints the directory holding the dumps
"""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import mkws  # noqa: E402
import stub  # noqa: E402


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["CARGO_HOME"] = e.get("CARGO_HOME", "/root/.cargo")
    e["RUSTUP_HOME"] = e.get("RUSTUP_HOME", "/root/.rustup")
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def tree(root, keep):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build", "book", "node_modules"))
        for f in sorted(fs):
            if keep(f):
                out.append(os.path.join(d, f))
    return out


def digest(repo):
    h = hashlib.sha256()
    files = tree(repo, lambda f: f.endswith((".rs", ".toml", ".md")))
    for part in ("driver", "shims", "witness"):
        files += tree(os.path.join(HERE, part), lambda f: f.endswith((".rs", ".toml", ".seed", ".lock")))
    files += [os.path.join(HERE, "tools", f) for f in ("mkws.py", "extract.py", "stub.py")]
    for f in files:
        try:
            data = open(f, "rb").read()
        except OSError:
            continue
        h.update(f.encode() + b"\0" + str(len(data)).encode() + b"\0" + data)
    return h.hexdigest()[:20]


def build_dir():
    d = os.path.join(HERE, "build")
    try:
        os.makedirs(d, exist_ok=True)
        return d
    except OSError:
        d = "/tmp/verif-build"
        os.makedirs(d, exist_ok=True)
        return d


def driver(base, e):
    tgt = os.path.join(base, "driver")
    exe = os.path.join(tgt, "debug", "ragu-ir")
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--manifest-path", os.path.join(HERE, "driver", "Cargo.toml"), "--target-dir", tgt],
                       env=e, cwd=os.path.join(HERE, "driver"), capture_output=True, text=True)
    if r.returncode or not os.path.exists(exe):
        raise SystemExit("the driver does not build:\n" + r.stderr[-4000:])
    return exe


def check(ws, out, exe, e, args, only="ragu"):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    # cargo would consider the crates fresh; the driver has to see every one of them
    for d in ("debug/.fingerprint", "debug/build"):
        p = os.path.join(ws, "target", d)
        if os.path.isdir(p):
            for x in os.listdir(p):
                if x.startswith(only):
                    shutil.rmtree(os.path.join(p, x), ignore_errors=True)
    e = dict(e, RAGU_IR_OUT=out, RUSTC_WORKSPACE_WRAPPER=exe)
    root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=e, capture_output=True, text=True).stdout.strip()
    e["LD_LIBRARY_PATH"] = root + "/lib"
    r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--keep-going", "--message-format=json", *args], env=e, cwd=ws, capture_output=True, text=True)
    errs = []
    for line in r.stdout.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") == "compiler-message" and m["message"]["level"].startswith("error"):
            for s in m["message"]["spans"]:
                if s["is_primary"]:
                    # a span inside a macro expansion is attributed to the outermost call site
                    while s.get("expansion") and s["expansion"].get("span"):
                        s = s["expansion"]["span"]
                    f = os.path.realpath(os.path.join(ws, s["file_name"]))
                    errs.append((f, s["line_start"], m["message"]["message"]))
    return r.returncode, errs, r.stderr


CONFIGS = {
    "serial": ["-p", "ragu_pcd", "-p", "ragu_pasta", "--features", "ragu_pasta/baked"],
    "main": ["--workspace", "--exclude", "ragu_witness", "--features", "ragu_pasta/baked"],
}
WITNESS = ["--workspace", "--features", "ragu_pasta/baked"]


def extract(repo="/repo"):
    repo = os.path.abspath(repo)
    base = build_dir()
    key = digest(repo)
    done = os.path.join(base, "ir", key)
    lock = open(os.path.join(base, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(os.path.join(done, "status.json")):
            return done
        t0 = time.time()
        e = env()
        exe = driver(base, e)
        src = repo
        ws = os.path.join(base, "ws")
        stubbed, unresolved = [], []
        for attempt in range(6):
            mkws.main(ws, src, "0", "analysis")
            status, errs_all = {}, []
            for name, args in CONFIGS.items():
                rc, errs, log = check(ws, os.path.join(base, "out-" + name), exe, e, args)
                status[name] = rc
                errs_all += errs
                if rc:
                    last = log
                    break
            if not any(status.values()):
                break
            # A body that does not type-check is cut out and reported; the rest is analysed.
            if src == repo:
                src = os.path.join(base, "src")
                shutil.rmtree(src, ignore_errors=True)
                shutil.copytree(repo, src, ignore=shutil.ignore_patterns("target", ".git", "book", "qa"), symlinks=True)
                errs_all = [(src + f[len(repo):] if f.startswith(repo + "/") else f, l, m) for f, l, m in errs_all]
            new = stub.stub(src, errs_all)
            if not new:
                unresolved = sorted({f"{os.path.relpath(f, src)}:{l}: {m}" for f, l, m in errs_all}) or [last[-2000:]]
                break
            stubbed += new
        twins = []
        wit = [["the sources do not type-check", 0, ""]]
        if not unresolved:
            # The macro witnesses, last: the crates they use are built by now.
            _, wit, _ = check(ws, os.path.join(base, "out-witness"), exe, e, WITNESS, "ragu_witness")
            if not wit:
                # .. and uses that have to be rejected
                _, twins, _ = check(ws, os.path.join(base, "out-violating"), exe, e, [*WITNESS, "--features", "ragu_witness/violating"], "ragu_witness")
        tmp = done + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        for name in [*CONFIGS, "witness"]:
            o = os.path.join(base, "out-" + name)
            if os.path.isdir(o):
                shutil.move(o, os.path.join(tmp, name))
        json.dump({"stubbed": stubbed, "witness": [[os.path.basename(f), l, m] for f, l, m in wit], "twins": [[os.path.basename(f), l, m] for f, l, m in twins], "unresolved": unresolved, "seconds": round(time.time() - t0, 1), "configs": {k: status.get(k) for k in CONFIGS}, "digest": key},
                  open(os.path.join(tmp, "status.json"), "w"))
        # keep a few recent results only
        ird = os.path.join(base, "ir")
        old = sorted((x for x in os.listdir(ird) if not x.endswith(".tmp")), key=lambda x: os.path.getmtime(os.path.join(ird, x)))
        for x in old[:-6]:
            shutil.rmtree(os.path.join(ird, x), ignore_errors=True)
        os.rename(tmp, done)
        return done
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


if __name__ == "__main__":
    print(extract(*sys.argv[1:]))
