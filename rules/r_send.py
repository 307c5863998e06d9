"""C28: the compiler decides whether the public futures and types can be sent.

The witness crate (witness/src/lib.rs) has one function per obligation; it is
type-checked against the current tree. Its `bounded` half names futures whose
own lifetime bounds rustc cannot verify outside their crate (rust-lang/rust#100013,
"lifetime bound not satisfied"); that complaint comes after the Send check of the
same function and says nothing about it, so only it is passed over. Its `control`
half must be refused, which shows that the witness still demands something."""
import fcntl, json, os, re, shutil, subprocess
import build

W = os.path.join(build.VERIF, "witness")


def run(e, d, feature):
    cmd = ["cargo", "check", "--lib", "--offline", "--message-format", "json", "--manifest-path", os.path.join(d, "Cargo.toml")]
    if feature:
        cmd += ["--features", feature]
    r = subprocess.run(cmd, cwd=d, env=dict(e, CARGO_TARGET_DIR=os.path.join(build.CACHE, "witness-target")),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errs, mine = [], False
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            errs.append((m["target"]["name"], m["message"]))
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "json_ld":
            mine = True
    return r.returncode, errs, mine, r.stderr


def places(msg):
    """Where in the library the offending value is held."""
    out = []
    for c in [msg] + msg.get("children", []):
        for s in c.get("spans", []):
            f = s["file_name"]
            if f.startswith(build.REPO + "/"):
                t = "%s:%d" % (f[len(build.REPO) + 1:], s["line_start"])
                if t not in out:
                    out.append(t)
    return out


def witness_fn(src, msg):
    """The obligation an error is about: the function of the witness it is reported in."""
    names = []
    for s in msg.get("spans", []):
        if not s["file_name"].endswith("lib.rs") or s["file_name"].startswith("/"):
            continue
        n = s["line_start"] - 1
        while n >= 0 and not re.match(r"\s*fn (\w+)", src[n]) and not re.match(r"\t\t(\w+): ", src[n]):
            n -= 1
        m = re.match(r"\s*fn (\w+)", src[n]) or re.match(r"\t\t(\w+): ", src[n])
        if m and m.group(1) not in names:
            names.append(m.group(1))
        x = s.get("expansion")
        while x:
            m = re.search(r"operations!\((\w+)", "".join(t["text"] for t in x["span"].get("text", [])))
            if m:
                names.append(m.group(1)) if m.group(1) not in names else None
            x = x["span"].get("expansion")
    return "/".join(names) or "?"


def send(ctx):
    d = os.path.join(build.CACHE, "witness")
    src = open(os.path.join(W, "src/lib.rs")).read().splitlines()
    ops = [x for x in src if x.startswith("operations!(")]
    i = next(n for n, x in enumerate(src) if x.startswith("macro_rules! operations"))
    j = next(n for n, x in enumerate(src) if x.startswith("operations!("))
    per = sum("fn " in x for x in src[i:j])
    others = sum(bool(re.match(r"\t(fn|\t\w+: )", x)) for x in src[j:])
    ctx.count("obligations type-checked", len(ops) * per + others)
    ctx.floor("send", "obligations type-checked", 170)
    os.makedirs(build.CACHE, exist_ok=True)
    with open(os.path.join(build.CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        open(os.path.join(d, "Cargo.toml"), "w").write(open(os.path.join(W, "Cargo.toml.in")).read().replace("@REPO@", build.REPO))
        shutil.copy(os.path.join(W, "src/lib.rs"), os.path.join(d, "src/lib.rs"))
        shutil.copy(os.path.join(build.REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
        e = build.env()
        for p in __import__("glob").glob(os.path.join(build.CACHE, "witness-target/debug/.fingerprint/json-ld*")):
            shutil.rmtree(p, ignore_errors=True)   # judge the current sources, whatever their time stamps
        seen = set()
        for feature in (None, "bounded"):
            rc, errs, built, err = run(e, d, feature)
            if not built:
                ctx.violation("send: the library does not build for the witness", "the library does not build: " + (errs[0][1]["message"] if errs else err[-400:]))
                return
            n = 0
            for _, m in errs:
                t = m["message"]
                if t.startswith("could not compile") or t.startswith("aborting due to"):
                    continue
                if feature == "bounded" and t == "lifetime bound not satisfied" and not m.get("code"):
                    continue
                n += 1
                what = witness_fn(src, m)
                code = (m.get("code") or {}).get("code", "")
                kind = "cannot be sent between threads" if code == "E0277" or "sent between threads" in t or "shared between threads" in t else "is no longer accepted"
                key = "send: %s: %s" % (what, t)
                if key in seen:
                    continue
                seen.add(key)
                ctx.violation(key, "%s %s: %s (%s)" % (what, kind, t, "held at " + ", ".join(places(m)[:6]) if places(m) else code))
            if rc and not errs:
                ctx.violation("send: undecided", "the witness was not type-checked: " + err[-400:])
        rc, errs, built, err = run(e, d, "control")
        if not any("cannot be sent" in m["message"] or (m.get("code") or {}).get("code") == "E0277" for _, m in errs):
            ctx.violation("send: control accepted", "the witness accepts a future that holds an Rc: it demands nothing")
        ctx.count("refused controls", 1)


RULES = {"C28": [send]}
