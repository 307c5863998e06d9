"""Plants bugs: python3 mk.py BUGS.py [id...]. BUGS.py defines a list `bugs` of
dicts {id, property, edits: [(file, old, new)], main, needs, breaks}; each is
applied in a scratch clone, confirmed (builds, stable tests pass, the
demonstration passes without and fails with the change) and written to
/verif/seeded/<id>; then the check of its property is run against it."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
W = "/tmp/w/plant"
REPO = W + "/repo"


def sh(cmd, **k):
    return subprocess.run(["bash", "-c", cmd], capture_output=True, text=True, **k)


def fresh():
    if not os.path.isdir(REPO + "/.git"):
        os.makedirs(W, exist_ok=True)
        sh(f"git clone -q /repo {REPO}")
        sh(f"cp /repo/Cargo.lock {REPO}/")
    sh(f"cd {REPO} && git checkout -q -- . && git pull -q /repo HEAD && git reset -q --hard FETCH_HEAD")


def tests():
    r = sh(f". /opt/vp/env.sh; export CARGO_TARGET_DIR={W}/target; cd {REPO}; rm -rf {W}/out; mkdir -p {W}/out;"
           f"cargo test $TARGETS --no-fail-fast --offline -- --test-threads 8 > {W}/out/tests.log 2>&1;"
           f"cargo test --workspace --all-features --doc --no-fail-fast --offline -- --test-threads 8 > {W}/out/doc.log 2>&1;"
           f"python3 /opt/vp/results.py {W}/res.json 'cargo:{W}/out/*.log'")
    try:
        d = json.load(open(W + "/res.json"))
    except Exception:
        return "no results " + r.stderr[-500:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base if isinstance(base, list) else base.get("passed") or base.get("tests") or base.get("stable")
    missing = [n for n in names if n not in d["passed"]]
    return None if not missing else f"tests fail: {missing[:3]}\n" + sh(f"grep -m3 -A6 '^error' {W}/out/tests.log").stdout


def demo(d):
    return sh(f"cd {REPO} && DEMO_TARGET={W}/demo bash {d}/demo.sh")


def plant(b, only_check=False):
    out = os.path.join(VERIF, "seeded", b["id"])
    fresh()
    d = tempfile.mkdtemp(dir=W)
    body = b["main"]
    pre, post = body if isinstance(body, tuple) else ("", body)
    open(d + "/main.rs", "w").write(open(HERE + "/prelude.rs").read() + pre + "\nfn main() {\n" + post.strip("\n") + "\n}\n")
    for f in ("Cargo.toml.in", "demo.sh"):
        shutil.copy(os.path.join(HERE, f), d)
    r = demo(d)
    if r.returncode:
        shutil.rmtree(d)
        return "DEMO FAILS UNCHANGED: " + (r.stdout + r.stderr)[-1200:]
    for f, old, new, *nth in b["edits"]:
        p = os.path.join(REPO, f)
        s = open(p).read()
        parts = s.split(old)
        if len(parts) != 2 and not nth or nth and len(parts) < 2 + nth[0]:
            shutil.rmtree(d)
            return f"EDIT applies {len(parts) - 1}x: {old[:60]!r}"
        n = nth[0] if nth else 0
        open(p, "w").write(old.join(parts[:n + 1]) + new + old.join(parts[n + 1:]))
    r = demo(d)
    if r.returncode == 0 or "could not compile" in r.stderr and not b.get("compile_fail"):
        shutil.rmtree(d)
        return "DEMO PASSES PATCHED" if r.returncode == 0 else "DOES NOT COMPILE " + r.stderr[-1500:]
    got = (r.stdout + r.stderr)[-300:]
    t = tests()
    if t:
        shutil.rmtree(d)
        return t
    patch = sh(f"cd {REPO} && git diff").stdout
    open(d + "/patch.diff", "w").write(patch)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if os.path.isdir(out):
        shutil.rmtree(out)
    shutil.move(d, out)
    os.chmod(out, 0o755)
    return "planted; demo: " + got.replace("\n", " | ") + "\n" + check(b["property"])


def check(pid):
    r = sh(f"VERIF_REPO={REPO} VERIF_CACHE={W}/cache VERIF_EVIDENCE={W}/evidence python3 {VERIF}/check.py {pid}")
    lines = [l for l in r.stdout.splitlines() if not l.startswith("[")]
    return f"   check exit {r.returncode}: " + " ".join(lines)[:300]


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for b in ns["bugs"]:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
            continue
        print("==", b["id"], b["property"], plant(b), flush=True)
