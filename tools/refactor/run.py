#!/usr/bin/env python3
"""run.py BATCH.py... [-k substring] [-j workers] [-t]: applies each behaviour-preserving refactoring of the
batches to a scratch clone of /repo and shows on which the comparison is not quiet."""
import glob, importlib.util, os, queue, re, shutil, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import lib
VERIF = os.path.dirname(os.path.dirname(HERE))
SC = "/tmp/w/ref"


def load(p):
    spec = importlib.util.spec_from_file_location(os.path.basename(p)[:-3], p)
    spec.loader.exec_module(importlib.util.module_from_spec(spec))


def worker(i, q, out, opts):
    d = "%s/%d" % (SC, i)
    os.makedirs(d, exist_ok=True)
    repo = d + "/repo"
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", repo + "/"], check=True) if shutil.which("rsync") else subprocess.run(
        "rm -rf %s && mkdir -p %s && cd /repo && git ls-files -z | xargs -0 cp --parents -t %s && cp /repo/Cargo.lock %s" % (repo, repo, repo, repo), shell=True, check=True)
    e = dict(os.environ, VERIF_REPO=repo, VERIF_CACHE=d + "/cache")
    ref = subprocess.run([sys.executable, VERIF + "/engine/build.py"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.strip()
    while True:
        try:
            r = q.get_nowait()
        except queue.Empty:
            return
        saved = {}
        msg = None
        for f, old, new, n in r.edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            saved.setdefault(p, s)
            if old is None:
                s += new
            elif old not in s:
                if not r.name.startswith("all_"):
                    msg = "NOT FOUND in %s: %r" % (f, old[:100])
                    break
                print("-- %s: edit no longer applies: %r" % (r.name, old[:60]))
            else:
                s = s.replace(old, new, n)
            open(p, "w").write(s)
        if msg is None:
            b = subprocess.run([sys.executable, VERIF + "/engine/build.py"], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if b.returncode:
                msg = "BUILD " + "\n".join(l for l in b.stderr.split("\n") if re.match(r"error|\s+-->", l))[:600]
            else:
                c = subprocess.run([sys.executable, VERIF + "/engine/equiv.py", ref, b.stdout.strip()], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   env=dict(os.environ, **({"FEATLOG": "%s/%s.json" % (os.environ["FEATDIR"], r.name)} if "FEATDIR" in os.environ else {})))
                msg = c.stdout.strip()
                if "DIFF" not in msg and c.returncode == 0 and "Traceback" not in msg:
                    msg = "quiet " + msg.split("\n")[-1][:150]
        for p, s in saved.items():
            open(p, "w").write(s)
        out.append((r.name, msg))
        print("== %s: %s" % (r.name, "\n".join(l[:opts["w"]] for l in msg.split("\n")[:opts["n"]])), flush=True)


def main():
    a = sys.argv[1:]
    opts = {"w": 420, "n": 12}
    k, j = None, 6
    files = []
    while a:
        x = a.pop(0)
        if x == "-k":
            k = a.pop(0)
        elif x == "-j":
            j = int(a.pop(0))
        elif x == "-w":
            opts["w"] = int(a.pop(0))
        else:
            files.append(x)
    for f in files or sorted(glob.glob(HERE + "/b*.py")):
        load(f)
    q = queue.Queue()
    rs = [r for r in lib.ALL if not k or re.search(k, r.name)]
    for r in rs:
        q.put(r)
    out = []
    ts = [threading.Thread(target=worker, args=(i, q, out, opts)) for i in range(min(j, len(rs)))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    bad = [n for n, m in out if not m.startswith("quiet")]
    print("%d refactorings, %d quiet; not quiet: %s" % (len(out), len(out) - len(bad), ", ".join(sorted(bad))))


main()
