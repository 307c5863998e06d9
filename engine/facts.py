"""Loading of the facts written by the `mirfacts` driver."""
import gzip, json, os, glob


def place_str(fn, p):
    l = p["l"]
    n = fn["locals"][l][0]
    s = "_%d" % l + ("/" + n if n else "")
    for e in p.get("p", []):
        if e[0] == "d":
            s = "*" + s
        elif e[0] == "f":
            s += "." + e[1]
        elif e[0] == "v":
            s += "@" + e[1]
        elif e[0] == "i":
            s += "[_%d]" % e[1]
        else:
            s += "[%s]" % ",".join(map(str, e))
    return s


def op_str(fn, o):
    if "l" in o:
        return place_str(fn, o)
    if "k" in o:
        k = o["k"]
        return "fn:" + (k.get("res") or k["fn"]) + ("~" + k["self"] if "self" in k and "res" not in k else "")
    return "c:" + o["c"]


def rv_str(fn, r):
    k = r[0]
    if k == "use":
        return op_str(fn, r[1])
    if k == "ref":
        return "&%s %s" % ("mut" if r[1] == "mut" else "", place_str(fn, r[2]))
    if k == "discr":
        return "discr(%s)" % place_str(fn, r[1])
    if k == "bin":
        return "%s(%s,%s)" % (r[1], op_str(fn, r[2]), op_str(fn, r[3]))
    if k == "un":
        return "%s(%s)" % (r[1], op_str(fn, r[2]))
    if k == "cast":
        return "cast(%s)" % op_str(fn, r[2])
    if k == "agg":
        d = r[1]
        nm = d.get("adt", d.get("d", d["a"])) + ("::" + d["v"] if "v" in d else "")
        fs = d.get("fs") or list(range(len(r[2])))
        return nm + "{" + ", ".join("%s:%s" % (f, op_str(fn, o)) for f, o in zip(fs, r[2])) + "}"
    return str(r)


def dump(fn):
    out = ["FN %s  [%s:%d] argc=%d %s" % (fn["key"], fn["file"], fn["line"], fn["argc"], fn.get("coroutine", ""))]
    for i, b in enumerate(fn["blocks"]):
        if b.get("cl"):
            continue
        out.append(" bb%d:" % i)
        for s in b["s"]:
            if s[0] == "=":
                out.append("   %s = %s   //%d" % (place_str(fn, s[1]), rv_str(fn, s[2]), s[3]))
            else:
                out.append("   " + str(s))
        t = b["t"]
        if t[0] == "call":
            out.append("   %s = %s(%s) -> bb%d  //%d" % (place_str(fn, t[3]), op_str(fn, t[1]), ", ".join(op_str(fn, a) for a in t[2]), t[4], t[5]))
        elif t[0] == "switch":
            out.append("   switch %s %s else bb%d //%d" % (op_str(fn, t[1]), t[3], t[4], t[5]))
        elif t[0] == "drop":
            out.append("   drop %s -> bb%d" % (place_str(fn, t[1]), t[2]))
        elif t[0] == "yield":
            out.append("   yield -> bb%d" % t[2])
        else:
            out.append("   " + str(t))
    return "\n".join(out)


class Facts:
    def __init__(self, d):
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.crates = {}
        for p in sorted(glob.glob(os.path.join(d, "*.jsonl*"))):
            crate = None
            cname = os.path.basename(p).split(".")[0]
            with (gzip.open(p, "rt") if p.endswith(".gz") else open(p)) as f:
                for line in f:
                    o = json.loads(line)
                    k = o["kind"]
                    if k == "crate":
                        crate = o["name"]
                        self.crates[cname] = o["bodies"]
                    elif k == "fn":
                        o["crate"] = cname
                        key = o["key"]
                        n = 2
                        while key in self.fns:
                            key = "%s#%d" % (o["key"], n)
                            n += 1
                        o["ukey"] = key
                        self.fns[key] = o
                    elif k == "adt":
                        self.adts.setdefault(o["path"], o)
                    elif k == "impl":
                        o["crate"] = crate
                        self.impls.append(o)
                    elif k == "trait":
                        self.traits[o["path"]] = o


if __name__ == "__main__":
    import sys
    F = Facts(sys.argv[1])
    for a in sys.argv[2:]:
        for k in F.fns:
            if a in k:
                print(dump(F.fns[k]))
