"""C22: every resource a call obtains is released exactly once, and the caller's streams are left alone."""
from ..ownership import *
from .. import facts, api
from ..interp import *
from ..effects import effects
from ..par import pmap
from ..report import Report

THISLOC = ("d", ("p", "this"))
# decided on the states of an archive and of a unit by C08; tokens belong to the token factories of the parser
ELSEWHERE = ()


def where(f, l=None): return "%s:%s" % (f["file"].replace("/repo/", ""), l or f["line"])


def interp(P, E, h):
    I = Interp(P, h, max_depth=4, budget=60000, inline_filter=inlining(P, E), effects=E)
    I.own_params = True
    I.joinkey = joinkey
    I.invokers = invokers(P)
    return I


def entries(P):
    """functions that themselves create or release something"""
    names = set(CREATE) | set(RELEASE) | set(MORE) | set(FREE)
    for u, f in sorted(P.funcs.items(), key=lambda e: (e[1]["file"], e[1]["line"])):
        if "/src/" not in f["file"] or not f.get("blocks"): continue
        rel = f["file"].split("/src/")[1]
        if rel.startswith("parser/") and "UTF8" not in rel: continue
        for x in f["exprs"].values():
            d = P.decls.get(x.get("fn"), {})
            if d.get("sys") and notmpl(d.get("qn", "")) in names or x["k"] in ("CXXNewExpr", "CXXDeleteExpr") or "ind" in x and x["k"] == "CallExpr":
                yield f
                break


SUM = ({}, {}, {})


def function(P, E, f):
    """[(key, where, text)], created, ways out, bounded"""
    h = Own(f["qn"], summaries=SUM)
    I = interp(P, E, h)
    bad = {}
    if len(f["blocks"]) > 90:
        fl = flowing(P, f)
        for n, l, kept in fl:
            if not kept: bad.setdefault("%s|%s" % (f["qn"], n), (where(f, l), "%s loses the result of %s on a path to its end" % (f["qn"], n)))
        return bad, len(fl), len(fl), False, f["qn"]
    own = {p["v"] for p in f["params"] if P.type(p["t"])["k"] == "rec" and notmpl(P.type(p["t"])["r"]) in SMART}

    def setup(I, st, fr):
        for v in own: st.ts[("r", ("p", v))] = ("object", "live", None, None)
    try: outs = I.analyze(f, setup=setup, tag="x")
    except BudgetExceeded: return bad, 0, 0, False, f["qn"]
    short = f["qn"].split("(")[0]
    cons = P.decls.get(f["usr"], {}).get("ctor")
    for key, g, l, text, chain in h.viol:
        bad.setdefault("%s|%s" % (short, key), (where(g, l), "in %s, %s" % (f["qn"], text)))
    for o in outs:
        for v in own:
            r = o.st.ts.get(("r", ("p", v)))
            if r and r[1] in ("owned", "rel") and any(l[0] == "v" and l[2] == v for l in holders(o.st, ("p", v))):
                bad.setdefault("%s|double|%s" % (short, v.split("#")[0]), (where(f), "%s gives the object in %s away and also releases it" % (f["qn"], v.split("#")[0])))
        for v, r in leaked(P, o, own):
            bad.setdefault("%s|leak|%s" % (short, r[0]), (where(f), "%s %s without releasing the %s it obtained" % (f["qn"], "returns" if o.kind == "ret" else "is left by an exception", r[0])))
        if o.kind == "exc" and cons and not delegates(P, f):
            for k, r in o.st.ts.items():
                if k[0] != "r" or len(k) != 2 or r[1] != "live" or not lives(o.st, k[1], r[0]): continue
                hs = [l for l in holders(o.st, k[1])]
                if hs and all(l[0] == "f" and root(l) == THISLOC for l in hs) and not any(smart(P, l) for l in hs):
                    bad.setdefault("%s|leak|%s" % (short, r[0]), (where(f), "%s throws without releasing the %s it obtained, and no destructor runs" % (f["qn"], r[0])))
    return bad, h.made, len(outs), True, f["qn"]


def deleters(P, E, _):
    """the functions smart pointers are given to release what they hold release it"""
    bad, n = {}, 0
    for f in P.funcs.values():
        if "/src/" not in f["file"]: continue
        F = None
        for x in f["exprs"].values():
            d = P.decls.get(x.get("fn"), {})
            if not (d.get("ctor") and notmpl(d.get("cls", "")) in SMART and len(x.get("ops", ())) >= 2): continue
            ex = {int(k): v for k, v in f["exprs"].items()}
            todo = list(x["ops"][1:])
            while todo:
                y = ex[todo.pop()]
                todo += y.get("ops", ())
                g = P.funcs.get(y.get("fn")) if y["k"] in ("LambdaExpr", "DeclRefExpr") else None
                if not g or len(g["params"]) != 1 or not g.get("blocks"): continue
                n += 1
                h = Own(g["qn"], summaries=SUM)
                sym = ("p", g["params"][0]["v"])

                def setup(I, st, fr):
                    st.ts[("r", sym)] = ("object", "live", None, None)
                    st.facts[sym] = (1, POS, frozenset())
                for o in interp(P, E, h).analyze(g, setup=setup, tag="del"):
                    if o.kind == "ret" and o.st.ts[("r", sym)][1] == "live":
                        bad["%s|deleter" % f["qn"].split("(")[0]] = (where(f, x["l"]), "in %s, the deleter of a smart pointer does not release what the pointer holds" % f["qn"])
    return bad, n


def delegates(P, f):
    return any(P.decls.get(x.get("fn"), {}).get("ctor") and P.funcs.get(x.get("fn"), {}).get("cls") == f.get("cls") for x in f["exprs"].values())


class Chain(Own):
    """constructor followed by destructor"""
    def __init__(self, label, mine=()):
        Own.__init__(self, label, summaries=SUM)
        self.mine = mine

    def release(self, I, st, v, x, fr, how):
        r = st.ts.get(("r", v))
        if r and r[0].startswith("caller's"):
            self.bad("foreign|" + how, fr, x, "%s is released by %s, although it belongs to the caller" % (r[0], how))
            return
        Own.release(self, I, st, v, x, fr, how)

    def call(self, I, st, qn, args, x, fr):
        if qn in ("UTF8CharBuffer::readChars", "antlr::CharBuffer::CharBuffer"): return
        if qn == "*":
            f = I.read(st, args[0][1]) if args[0][0] == "L" else args[0]
            if f == self.cb:
                st.ts["closed"] = min(2, st.ts.get("closed", 0) + 1)
                c = I.read(st, args[1][1]) if len(args) > 1 and args[1][0] == "L" else args[1] if len(args) > 1 else None
                if c is not None and c != self.ctx: self.bad("context", fr, x, "the close callback is given %s instead of the context" % show(c))
                return
        Own.call(self, I, st, qn, args, x, fr)

    cb = ctx = None


def cont(I, f, st, tag):
    def setup(I, s, fr):
        own = dict(s.mem)
        s.mem = dict(st.mem)
        s.mem.update(own)
        s.facts.update(st.facts)
        s.ts = dict(st.ts)
    return I.analyze(f, setup=setup, tag=tag)


def kept(P, E, cls):
    """resources methods of the class leave in its members: {field: kind}"""
    out = {}
    for f in P.funcs.values():
        if f.get("cls") != cls or not f.get("blocks") or f["qn"].split("::")[-1].startswith("~"): continue
        if not any(x.get("fn") in SUM[0] or notmpl(P.decls.get(x.get("fn"), {}).get("qn", "")) in set(CREATE) | set(MORE) or x["k"] == "CXXNewExpr" or x.get("ind") for x in f["exprs"].values()): continue
        h = Own(f["qn"], summaries=SUM)
        I = interp(P, E, h)
        try: outs = I.analyze(f, tag="k")
        except BudgetExceeded: continue
        for o in outs:
            if o.kind != "ret": continue
            for k, r in o.st.ts.items():
                if k[0] == "r" and len(k) == 2 and r[1] in ("live", "lent") and lives(o.st, k[1], r[0]):
                    for l in holders(o.st, k[1]):
                        if l[0] == "f" and l[1] == THISLOC and not smart(P, l): out[l[2]] = (r[0], out.get(l[2], (0, False))[1] or o.st.truth(k[1]) != 1)
        for m in list(out):
            if any(o.kind == "ret" and o.st.truth(I.read(o.st, ("f", THISLOC, m))) != 1 for o in outs if P.decls.get(f["usr"], {}).get("ctor")): out[m] = (out[m][0], True)
    return out


def classes(P):
    return sorted({f["cls"] for f in P.funcs.values() if f.get("cls") and "/src/" in f["file"] and f.get("blocks") and f["qn"].split("::")[-1].startswith("~") and "/libsrcml/" in f["file"] or f.get("cls") == "UTF8CharBuffer"})


def destructor(P, cls):
    for f in P.funcs.values():
        if f.get("cls") == cls and f["qn"].split("::")[-1].startswith("~") and f.get("blocks"): return f


def discipline(P, E, cls):
    """what the members hold is released by the destructor"""
    bad, n = {}, 0
    d = destructor(P, cls)
    fields = kept(P, E, cls)
    if d is None:
        for m, k in fields.items(): bad["%s|%s" % (cls, m)] = ("src", "%s keeps a %s in %s and has no destructor" % (cls, k[0], m))
        return bad, n, fields
    for m, (k, null) in fields.items():
        h = Own(cls, summaries=SUM)
        I = interp(P, E, h)
        sym = ("sym", "the " + m)

        def setup(I, st, fr):
            st.mem[("f", THISLOC, m)] = sym
            st.facts[sym] = (1, POS, frozenset())
            st.ts[("r", sym)] = (k, "live", None, None)
        n += 1
        if null:
            def none(I, st, fr): st.mem[("f", THISLOC, m)] = INT0
            I.analyze(d, setup=none, tag="n")
        for o in I.analyze(d, setup=setup, tag="d"):
            r = o.st.ts.get(("r", sym))
            if o.kind == "ret" and r[1] in ("live",): bad["%s|%s" % (cls, m)] = (where(d), "~%s leaves the %s in %s open" % (cls, k, m))
        for key, g, l, text, chain in h.viol: bad.setdefault("%s|%s|%s" % (cls, m, key), (where(g, l), "in ~%s, %s" % (cls, text)))
    return bad, n, fields


def streams(P, E, _):
    """an input closes what it opened, calls the caller's close callback once, and never closes what the caller opened"""
    bad, n = {}, 0
    cls = "UTF8CharBuffer"
    d = destructor(P, cls)
    for f in P.fns(cls + "::" + cls):
        names = [p["n"] for p in f["params"]]
        if "cooked_size" in names or "blocks" not in f: continue
        par = {p["n"]: ("p", p["v"]) for p in f["params"]}
        sig = ",".join(names[:1] + (["callbacks"] if "read_callback" in names else []))
        h = Chain(cls)
        if "read_callback" in names: h.cb, h.ctx = par["close_callback"], par["context"]
        I = interp(P, E, h)
        I.opaque |= {cls + "::readChars", "antlr::CharBuffer::CharBuffer"}

        def setup(I, st, fr):
            if "file" in names: st.ts[("r", par["file"])] = ("caller's FILE", "live", None, None)
            if "fd" in names: st.ts[("r", par["fd"])] = ("caller's descriptor", "live", None, None)
            if "context" in names: st.ts[("r", par["context"])] = ("caller's context", "live", None, None)
            if "c_buffer" in names: st.ts[("r", par["c_buffer"])] = ("caller's text", "live", None, None)
        what = {"ifilename": "a file name", "c_buffer": "memory", "file": "a FILE", "fd": "a file descriptor"}.get(names[0], "callbacks")
        for o in I.analyze(f, setup=setup, tag="c"):
            if o.kind != "ret": continue
            for q in cont(I, d, o.st, "d"):
                if q.kind != "ret": continue
                n += 1
                st = q.st
                for k, r in st.ts.items():
                    if k[0] == "r" and len(k) == 2 and r[1] == "live" and not r[0].startswith("caller's") and lives(st, k[1], r[0]):
                        bad["input|%s|%s" % (what, r[0])] = (where(d), "the input opened from %s leaves a %s open when it is destroyed" % (what, r[0]))
                if h.cb is not None:
                    c = st.ts.get("closed", 0)
                    if c > 1: bad["callback|twice"] = (where(d), "the caller's close callback is called more than once")
                    if c == 0 and st.truth(h.cb) != 0 and st.truth(h.ctx) != 0: bad["callback|never"] = (where(d), "the caller's close callback is not called")
        for key, g, l, text, chain in h.viol: bad.setdefault("input|%s|%s" % (what, key), (where(g, l), "for an input opened from %s, %s" % (what, text)))
    # the parse functions
    for f in P.funcs.values():
        if f["qn"] not in ("srcml_unit_parse_FILE", "srcml_unit_parse_fd", "srcml_unit_unparse_FILE", "srcml_unit_unparse_fd"): continue
        h = Chain(f["qn"])
        I = interp(P, E, h)
        par = ("p", f["params"][1]["v"])

        def setup(I, st, fr): st.ts[("r", par)] = ("caller's stream", "live", None, None)
        n += len(I.analyze(f, setup=setup, tag="p"))
        for key, g, l, text, chain in h.viol: bad.setdefault("%s|%s" % (f["qn"], key), (where(g, l), "in %s, %s" % (f["qn"], text)))
    return bad, n


def run_check():
    P = facts.load(("libsrcml", "parser"))
    E = effects(P)
    R = Report("C22", "Every function of the library and of the source input that obtains or releases a resource is interpreted on all of its paths: what it created is released, returned, stored or handed over when it is "
               "left, normally or by an exception, nothing is released twice or used afterwards. Every resource a class keeps in a member is released by its destructor. Each way to open an input is followed by its destruction: "
               "what was opened is closed, the caller's close callback is called once with its context, and what the caller opened stays open.")
    fs = list(entries(P))
    for f, (k, g, t) in zip(fs, pmap(lambda f: summary(P, E, f, interp), fs)):
        if t and P.decls.get(f["usr"], {}).get("ctor"): SUM[2][f["usr"]] = t
        if f.get("cls") or f.get("lambda"): continue
        if k: SUM[0][f["usr"]] = k
        if g: SUM[1][f["usr"]] = g
    jobs = [(function, f) for f in fs] + [(discipline, c) for c in classes(P)] + [(streams, None), (deleters, None)]
    jobs.sort(key=lambda j: 0 if j[0] is function and j[1]["qn"] in ("UTF8CharBuffer::readChars") else 1)
    made = ways = 0
    skipped = []
    for (fn, a), res in zip(jobs, pmap(lambda j: j[0](P, E, j[1]), jobs)):
        for k, (w, t) in res[0].items(): R.violation(k, w, t)
        if fn is function:
            if not res[3] and res[2] == 0:
                skipped.append(res[4])
                continue
            R.ok("%s: %d ways out" % (res[4], res[2]))
            made += res[1]
            ways += res[2]
        elif fn is discipline:
            for m, k in res[2].items(): R.ok("%s::%s, %s" % (a, m, k[0]))
        elif fn is deleters: R.ok("deleters", res[1])
        else:
            R.ok("inputs", res[1])
            R.cov["lives of inputs"] = res[1]
            R.require("lives of inputs", res[1], 5)
        R.cov["members that hold a resource"] = R.cov.get("members that hold a resource", 0) + (len(res[2]) if fn is discipline else 0)
    R.require("functions that create or release", len(fs), 50)
    R.require("members that hold a resource", R.cov["members that hold a resource"], 6)
    R.cov["resources created"] = made
    R.cov["ways out"] = ways
    R.cov["not decided (beyond the budget)"] = skipped
    R.assumptions = ["libxml2 and libxslt take over and release what they document", "a function of the repository that is passed a resource and is not analysed in place keeps or releases it as its own analysis shows"]
    return R.finish(P)
