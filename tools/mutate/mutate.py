#!/usr/bin/env python3
"""mutate.py OUTDIR N [-j workers] [-s seed] [-f fileregex]: random small faults in the library crates, and what the
comparison says about each. Measures what the checks can see; equivalent and non-compiling mutants are set aside by hand."""
import json, os, random, re, subprocess, sys, threading, queue
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = "/repo"
SC = "/tmp/w/mut"


def files():
    out = subprocess.run(["git", "-C", REPO, "ls-files"], stdout=subprocess.PIPE, text=True).stdout.split()
    return [f for f in out if re.match(r"(crates/(core|context-processing|expansion|compaction|syntax|serialization)/)?src/.*\.rs$", f)]


def sites(f):
    s = open(os.path.join(REPO, f)).read().split("\n")
    test = next((i for i, l in enumerate(s) if "#[cfg(test)]" in l), len(s))
    for i, l in enumerate(s[:test]):
        t = l.strip()
        if t.startswith(("//", "use ", "pub use", "#", "where", "impl", "pub fn", "fn ", "pub struct", "pub enum")):
            continue
        ind = l[:len(l) - len(l.lstrip())]
        m = re.match(r"((?:\} else )?if )((?!let).* && .*)( \{)$", t)
        if m and "let " not in t:
            ps = m.group(2).split(" && ")
            if all(p.count("(") == p.count(")") for p in ps):
                for j in range(len(ps)):
                    yield i, ind + m.group(1) + " && ".join(ps[:j] + ps[j + 1:]) + m.group(3), "drop-and"
        m = re.match(r"((?:\} else )?if )((?!let).* \|\| .*)( \{)$", t)
        if m:
            ps = m.group(2).split(" || ")
            if all(p.count("(") == p.count(")") for p in ps):
                for j in range(len(ps)):
                    yield i, ind + m.group(1) + " || ".join(ps[:j] + ps[j + 1:]) + m.group(3), "drop-or"
        m = re.match(r"(&&|\|\|) (.*[^{])$", t)
        if m:
            yield i, "", "drop-conj-line"
        if re.match(r"[a-z_][\w.]*\.(insert|push|set_\w+|add\w*|extend|remove|clear|take|retain|sort\w*|dedup|replace)\(.*\);$", t) or re.match(r"[a-z_][\w.]*\(.*\)\??;$", t):
            yield i, "", "drop-stmt"
        if re.match(r"(self\.|result\.|definition\.|active_context\.|node\.)?[\w.]+ = .*;$", t) and not t.startswith("let"):
            yield i, "", "drop-assign"
        m = re.match(r"(.*) if [^{]* => (.*)$", t)
        if m and "else" not in t:
            yield i, ind + m.group(1) + " => " + m.group(2), "drop-guard"
        if " == " in t:
            yield i, l.replace(" == ", " != ", 1), "eq-ne"
        if " != " in t:
            yield i, l.replace(" != ", " == ", 1), "ne-eq"
        for a, b in (("true", "false"), ("false", "true")):
            if re.search(r"\b%s\b" % a, t) and "//" not in t:
                yield i, re.sub(r"\b%s\b" % a, b, l, count=1), "bool"
        if t in ("continue;", "break;"):
            yield i, l.replace("continue", "#").replace("break", "continue").replace("#", "break"), "loop"
        for m in re.finditer(r"(\w+)\(([\w.&*]+), ([\w.&*]+)\)", l):
            yield i, l[:m.start()] + "%s(%s, %s)" % (m.group(1), m.group(3), m.group(2)) + l[m.end():], "swap-args"
        m = re.search(r"Keyword::(\w+)", l)
        if m:
            for k in ("Id", "Type", "Value", "Graph", "Language", "Index", "Set", "List", "None"):
                if k != m.group(1):
                    yield i, l.replace("Keyword::" + m.group(1), "Keyword::" + k, 1), "keyword"
                    break
        for a, b in ((".is_some()", ".is_none()"), (".is_none()", ".is_some()"), ("language", "direction"), ("direction", "language"), ("base_url", "None.or(base_url)"),
                     ("unwrap_or(false)", "unwrap_or(true)"), (" < ", " <= "), (" > ", " >= "), (".first()", ".last()"), (".is_empty()", ".is_empty() == false"),
                     ("properties", "reverse_properties"), ("get_or_insert", "insert"), (".any(", ".all("), (".all(", ".any("), ("if !", "if "), (".or_else(", ".and_then("),
                     ("Nullable::Some", "Nullable::Null"), (".next()", ".last()"), ("Some(", "None.or(")):
            if a in l:
                yield i, l.replace(a, b, 1), a
        m = re.match(r"return Err\(.*\);$", t)
        if m:
            yield i, "", "drop-return-err"
        if t.endswith("?;") and not t.startswith("let"):
            yield i, ind + "let _ = " + t[:-2] + ";", "drop-question"


def main():
    a = sys.argv[1:]
    out, n = a[0], int(a[1])
    opt = dict(zip(a[2::2], a[3::2]))
    j = int(opt.get("-j", 4))
    rnd = random.Random(int(opt.get("-s", 1)))
    os.makedirs(out, exist_ok=True)
    allsites = [(f, i, new, op) for f in files() if re.search(opt.get("-f", ""), f) for i, new, op in sites(f)]
    rnd.shuffle(allsites)
    by = {}
    for s in allsites:
        by.setdefault(s[3], []).append(s)
    pick = []
    while len(pick) < n and by:
        for op in list(by):
            if by[op]:
                pick.append(by[op].pop())
            else:
                del by[op]
    q = queue.Queue()
    for k, s in enumerate(pick[:n]):
        q.put((k, s))

    def worker(w):
        d = "%s/%d" % (SC, w)
        repo = d + "/repo"
        subprocess.run("mkdir -p %s && rm -rf %s && mkdir -p %s && cd /repo && git ls-files -z | xargs -0 cp --parents -t %s && cp /repo/Cargo.lock %s" % (d, repo, repo, repo, repo), shell=True, check=True)
        e = dict(os.environ, VERIF_REPO=repo, VERIF_CACHE=d + "/cache")
        while True:
            try:
                k, (f, i, new, op) = q.get_nowait()
            except queue.Empty:
                return
            p = os.path.join(repo, f)
            src = open(p).read()
            ls = src.split("\n")
            old = ls[i]
            ls[i] = new
            open(p, "w").write("\n".join(ls))
            b = subprocess.run([sys.executable, VERIF + "/engine/build.py"], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            name = "%s-%04d" % (opt.get("-s", "1"), k)
            head = {"file": f, "line": i + 1, "op": op, "old": old.strip(), "new": new.strip()}
            if b.returncode:
                head["result"] = "build"
            else:
                c = subprocess.run([sys.executable, VERIF + "/engine/equiv.py", VERIF + "/reference", b.stdout.strip()], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   env=dict(os.environ, FEATLOG="%s/%s.json" % (out, name)))
                head["result"] = "DIFF" if "\nDIFF" in c.stdout else "quiet" if c.returncode == 0 else "error"
            open(p, "w").write(src)
            json.dump(head, open("%s/%s.head" % (out, name), "w"))
            print(name, head["result"], op, "%s:%d" % (f, i + 1), old.strip()[:60], "->", new.strip()[:60], flush=True)

    ts = [threading.Thread(target=worker, args=(w,)) for w in range(j)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
