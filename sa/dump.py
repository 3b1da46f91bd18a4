import sys, json
from . import facts
def show(P, f):
    print(f["qn"], f["file"], f["line"], f["usr"], [ (p["v"], P.type(p["t"])["s"]) for p in f["params"]])
    for b in sorted(f["blocks"], key=lambda b: -b["id"]):
        print(" B%d%s -> %s %s cond=%s" % (b["id"], " case%s" % b["case"] if "case" in b else "", b["succ"], b.get("tk", ""), b.get("cond")))
        for e in b["el"]:
            if e["k"] == "E":
                print("    ", e["id"], ex(P, f, e["id"]))
            else:
                print("    ", json.dumps(e))
    if "trys" in f: print(f["trys"])
def ex(P, f, i):
    x = dict(f["exprs"][str(i)])
    t = P.type(x.pop("t"))["s"][:60]
    if "fn" in x: x["fn"] = P.decls[x["fn"]]["qn"]
    k = x.pop("k"); x.pop("l", None)
    return "%s %s :%s" % (k, " ".join("%s=%s" % kv for kv in x.items()), t)
if __name__ == "__main__":
    P = facts.load(tuple(sys.argv[2].split(",")) if len(sys.argv) > 2 else ("libsrcml", "parser"))
    for f in P.fns(sys.argv[1]): show(P, f)
