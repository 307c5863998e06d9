"""Builds the driver and the facts of /repo's *current* working tree.

The facts are cached under /verif/.cache, keyed by the content of every source
file the library crates are built from; a changed tree always gives new facts."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
PKGS = ["json-ld", "json-ld-syntax", "json-ld-core", "json-ld-context-processing",
        "json-ld-expansion", "json-ld-compaction", "json-ld-serialization"]
CRATES = ["json_ld", "json_ld_syntax", "json_ld_core", "json_ld_context_processing",
          "json_ld_expansion", "json_ld_compaction", "json_ld_serialization"]


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["HOME"] = e.get("HOME", "/root")
    e.pop("RUSTUP_TOOLCHAIN", None)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=e, stdout=subprocess.PIPE, check=True, text=True).stdout.strip()
    e["LD_LIBRARY_PATH"] = sysroot + "/lib"
    return e


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for pat in ("Cargo.toml", "Cargo.lock", "src/**/*.rs", "crates/*/Cargo.toml", "crates/*/src/**/*.rs", "crates/*/build.rs", "build.rs"):
        fs += glob.glob(os.path.join(REPO, pat), recursive=True)
    for f in sorted(set(fs)):
        h.update(os.path.relpath(f, REPO).encode())
        h.update(open(f, "rb").read())
    for f in sorted(glob.glob(os.path.join(VERIF, "driver/src/*.rs")) + [os.path.join(VERIF, "driver/Cargo.toml")]):
        h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


def driver(e):
    tgt = os.path.join(CACHE, "driver")
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(VERIF, "driver/Cargo.toml")],
                       env=dict(e, CARGO_TARGET_DIR=tgt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("driver build failed:\n" + r.stdout[-4000:])
    return os.path.join(tgt, "debug/mirfacts")


class BuildError(Exception):
    pass


def facts_dir(log=sys.stderr):
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        d = os.path.join(CACHE, "facts", h)
        if os.path.exists(os.path.join(d, "OK")):
            os.utime(d)
            return d
        e = env()
        drv = driver(e)
        for old in sorted(glob.glob(os.path.join(CACHE, "facts", "*")), key=os.path.getmtime)[:-6]:
            shutil.rmtree(old, ignore_errors=True)
        tmp = d + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        tgt = os.path.join(CACHE, "target")
        # cargo's freshness cache would skip the wrapper: forget our crates.
        for pat in ("debug/.fingerprint/json-ld*", "debug/build/json-ld*"):
            for p in glob.glob(os.path.join(tgt, pat)):
                shutil.rmtree(p, ignore_errors=True)
        t = time.time()
        cmd = ["cargo", "check", "--lib", "--all-features", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml")]
        if os.path.exists(os.path.join(REPO, "Cargo.lock")):
            cmd.append("--locked")
        for p in PKGS:
            cmd += ["-p", p]
        for attempt in (1, 2):
            r = subprocess.run(cmd, cwd=REPO, env=dict(e, CARGO_TARGET_DIR=tgt, MIRFACTS_OUT=tmp, RUSTC_WORKSPACE_WRAPPER=drv),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            missing = [c for c in CRATES if not os.path.exists(os.path.join(tmp, c + ".jsonl"))]
            if not missing and not r.returncode:
                break
            if attempt == 1 and (missing and not r.returncode or "mirfacts" in r.stdout):
                shutil.rmtree(tgt, ignore_errors=True)   # stale or foreign build cache: start over
            elif r.returncode:
                raise BuildError("cargo check of /repo failed:\n" + r.stdout[-6000:])
        if missing:
            raise BuildError("no facts for %s\n%s" % (missing, r.stdout[-3000:]))
        open(os.path.join(tmp, "OK"), "w").write("%.1f" % (time.time() - t))
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
        print("[facts] built %s in %.1fs" % (h, time.time() - t), file=log)
        return d


if __name__ == "__main__":
    print(facts_dir())
