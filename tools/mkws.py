"""Lays out a cargo workspace that builds /repo's crates in place with no network.

Manifests come from /repo as it is now; the git dependencies that cannot be fetched here
(ff, group, pasta_curves) and the one crate missing from the cargo cache (blake2b_simd) are
replaced by the stand-ins in /verif/shims. Sources are symlinks into /repo.

usage: mkws.py OUTDIR [REPO [OPT_LEVEL [analysis]]]
"""
import os
import re
import shutil
import sys
import tomllib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHIMS = ("ff", "group", "pasta_curves", "blake2b_simd")
#: Only benches use these; they are not in the offline cache.
DROPPED = {"gungraun", "criterion"}


def val(v):
    if isinstance(v, bool):
        return str(v).lower()
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(val(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{k} = {val(x)}" for k, x in v.items()) + " }"
    if isinstance(v, (int, float)):
        return str(v)
    return '"%s"' % str(v).replace("\\", "\\\\").replace('"', '\\"')


def put(path, text):
    """Leaves the file alone if it is right already, so that cargo does not rebuild."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path, encoding="utf-8").read() != text:
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)


def link(src, dst):
    if os.path.islink(dst) and os.readlink(dst) == src:
        return
    if os.path.lexists(dst):
        if os.path.isdir(dst) and not os.path.islink(dst):
            shutil.rmtree(dst)
        else:
            os.remove(dst)
    os.symlink(src, dst)


def depspec(name, spec, root, crate_dirs):
    spec = {"version": spec} if isinstance(spec, str) else dict(spec)
    if spec.pop("workspace", False):
        base = root["workspace"]["dependencies"][name]
        base = {"version": base} if isinstance(base, str) else dict(base)
        base["features"] = list(base.get("features", [])) + list(spec.pop("features", []))
        base.update(spec)
        spec = base
        if not spec["features"]:
            del spec["features"]
    if "path" in spec:
        spec["path"] = f"../{name}"
    return spec


STUB = """fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(std::path::Path::new(&out).join("pasta_parameters.bin"), []).unwrap();
}
"""


def main(out, repo="/repo", profile_opt="0", analysis=""):
    extra = []
    root = tomllib.load(open(f"{repo}/Cargo.toml", "rb"))
    wp = root["workspace"]["package"]
    members = [m for m in root["workspace"]["members"]]
    names = {}
    for m in members:
        names[m] = tomllib.load(open(f"{repo}/{m}/Cargo.toml", "rb"))
    text = ""
    text += "[patch.crates-io]\n" + "".join(f'{s} = {{ path = "{HERE}/shims/{s}" }}\n' for s in SHIMS)
    text += f"\n[profile.dev]\ndebug = 0\nopt-level = {profile_opt}\nincremental = false\n\n[profile.test]\ndebug = 0\n"
    todo = [(m, names[m], f"{repo}/{m}") for m in members]
    todo.append(("ragu", root, repo))
    for m, man, src in todo:
        base = os.path.basename(m)
        dst = f"{out}/crates/{base}"
        os.makedirs(dst, exist_ok=True)
        t = f'[package]\nname = "{man["package"]["name"]}"\nversion = "{wp["version"]}"\nedition = "{wp["edition"]}"\npublish = false\nautobenches = false\n'
        feats = man.get("features", {})
        t += "\n[features]\n" + "".join(f"{val(k)[1:-1]} = {val(v)}\n" for k, v in feats.items())
        lib = {k: v for k, v in man.get("lib", {}).items()}
        lib["bench"] = False
        t += "\n[lib]\n" + "".join(f"{k} = {val(v)}\n" for k, v in lib.items())
        stub = analysis and os.path.exists(f"{src}/build.rs")
        for table in ("dependencies", "dev-dependencies", "build-dependencies"):
            if stub and table == "build-dependencies":
                continue
            deps = {k: v for k, v in man.get(table, {}).items() if k not in DROPPED}
            if deps:
                t += f"\n[{table}]\n" + "".join(f"{k} = {val(depspec(k, v, root, None))}\n" for k, v in deps.items())
        if stub:
            # The build script is analysed as a binary of its own instead of being run.
            put(f"{dst}/stub.rs", STUB)
            t = t.replace("publish = false\n", 'publish = false\nbuild = "stub.rs"\n', 1)
            bdst = f"{out}/crates/{base}_build"
            b = f'[package]\nname = "{base}_build"\nversion = "{wp["version"]}"\nedition = "{wp["edition"]}"\npublish = false\nbuild = false\n'
            b += f'\n[[bin]]\nname = "{base}_build"\npath = "build.rs"\n\n[dependencies]\n'
            b += "".join(f"{k} = {val(depspec(k, v, root, None))}\n" for k, v in man.get("build-dependencies", {}).items())
            os.makedirs(bdst, exist_ok=True)
            put(f"{bdst}/Cargo.toml", b)
            for f in os.listdir(src):
                if f.endswith(".rs"):
                    link(f"{src}/{f}", f"{bdst}/{f}")
            extra.append(f"crates/{base}_build")
        put(f"{dst}/Cargo.toml", t)
        for f in ("src", "tests", "build.rs", "README.md"):
            if os.path.exists(f"{src}/{f}"):
                link(f"{src}/{f}", f"{dst}/{f}")
        for f in os.listdir(src) if base != "ragu" else ():
            if f.endswith(".rs"):
                link(f"{src}/{f}", f"{dst}/{f}")
    if analysis:
        # Uses of the macros, for their expansions.
        w = f"{out}/crates/ragu_witness"
        os.makedirs(w, exist_ok=True)
        deps = {x: {"path": f"../{x}"} for x in ("ragu_arithmetic", "ragu_core", "ragu_primitives", "ragu_pasta", "ragu_macros")}
        deps["ff"] = depspec("ff", {"workspace": True}, root, None)
        put(f"{w}/Cargo.toml", f'[package]\nname = "ragu_witness"\nversion = "{wp["version"]}"\nedition = "{wp["edition"]}"\npublish = false\n\n[features]\nviolating = []\n\n[dependencies]\n'
            + "".join(f"{k} = {val(v)}\n" for k, v in deps.items()))
        link(f"{HERE}/witness/src", f"{w}/src")
        extra.append("crates/ragu_witness")
    head = "[workspace]\nresolver = \"2\"\nmembers = " + val(["crates/" + os.path.basename(m) for m in members] + ["crates/ragu"] + extra) + "\n\n"
    put(f"{out}/Cargo.toml", head + text)
    lock = f"{HERE}/shims/Cargo.lock.seed"
    if os.path.exists(lock) and not os.path.exists(f"{out}/Cargo.lock"):
        shutil.copy(lock, f"{out}/Cargo.lock")


if __name__ == "__main__":
    main(*sys.argv[1:])
