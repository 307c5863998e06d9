"""Writes /verif/reference: the facts of /repo's current tree, to be committed
after review (the tree every later one is compared with)."""
import glob, gzip, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
import build
d = build.facts_dir()
out = os.path.join(build.VERIF, "reference")
os.makedirs(out, exist_ok=True)
for p in sorted(glob.glob(os.path.join(d, "*.jsonl"))):
    with open(os.path.join(out, os.path.basename(p) + ".gz"), "wb") as raw:
        with gzip.GzipFile(filename="", mode="wb", fileobj=raw, mtime=0, compresslevel=9) as g:
            g.write(open(p, "rb").read())
print("reference from", d)
