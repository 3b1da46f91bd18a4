"""C25: what is derived from the content of a unit (caches, positions) never outlives that content."""
from ..unitsession import *
from ..report import Report
from .. import flow
from ..effects import effects

REC, CONTENT = "srcml_unit", "srcml"


def optional_string(P, t):
    t = P.type(t)
    return t["k"] == "rec" and notmpl(t["r"]) in ("boost::optional", "std::optional") and t["s"].split("<", 1)[1].startswith("std::basic_string")


class Derived:
    """must-write dataflow: on every path through a function, which derived fields are reset or recomputed after the content changed"""

    def __init__(self, P, derived):
        self.P, self.derived = P, derived
        self.E = effects(P)
        self.sums = {}
        self.paths = 0

    def interesting(self, u):
        m = self.E.mods[u]
        return any((REC, d) in m for d in self.derived | {CONTENT})

    def fresh(self, F, i):
        """the object was created in this function"""
        v = F.base_var(i)
        if v["k"] != "DeclRefExpr" or "v" not in v or any(p["v"] == v["v"] for p in F.f["params"]): return False
        for j, x in F.ex.items():
            if "fn" in x and x["k"] in ("CallExpr", "CXXNewExpr") and self.decl_of(F, j) == v["v"]: return True
        return False

    def decl_of(self, F, j):
        for b in F.blocks.values():
            for e in b["el"]:
                for v in e.get("vars", ()) if e["k"] == "D" else ():
                    if v.get("init") is not None and j in F.sub(v["init"]): return v["v"]
        return None

    def nothing(self, F, i):
        """an empty optional: none, {}, or a default-constructed value"""
        x = F.ex[i]
        if x["k"] == "DeclRefExpr": return "none" in str(x.get("v"))
        if x["k"].endswith("CastExpr") or x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "MaterializeTemporaryExpr", "InitListExpr", "CXXBindTemporaryExpr", "CXXDefaultArgExpr", "CXXScalarValueInitExpr", "ParenExpr"):
            return all(self.nothing(F, o) for o in x.get("ops", ()))
        return False

    def events(self, F):
        """position -> list of ('content',) / ('reset'|'set', field) / ('call', usr)"""
        ev = {}
        for i, fld, w, p in flow.field_uses(self.P, F, REC):
            if w != "w" or fld not in self.derived | {CONTENT}: continue
            at = F.where(i)
            if at is None: continue
            top = i
            while F.parent.get(top) is not None and F.ex[F.parent[top]]["k"] in ("ImplicitCastExpr", "ParenExpr"): top = F.parent[top]
            x = F.ex.get(F.parent.get(top), {})
            at = F.where(F.parent.get(top)) or at
            if fld == CONTENT:
                if not self.fresh(F, i): ev.setdefault(at, []).append(("content", None))
            else:
                n = self.P.decls.get(x.get("fn"), {}).get("n")
                none = n in ("reset", "clear") or n == "operator=" and all(self.nothing(F, o) for o in x.get("ops", ())[1:])
                ev.setdefault(at, []).append(("reset" if none else "set", fld))
        for i, x in F.ex.items():
            u = x.get("fn")
            if u in self.P.funcs and x["k"] != "DeclRefExpr" and self.interesting(u):
                at = F.where(i)
                if at is not None: ev.setdefault(at, []).append(("call", u))
        return ev

    def summary(self, u):
        """(fields written on every exit, where the content did not / did change); None if there is no such exit"""
        if u in self.sums: return self.sums[u]
        self.sums[u] = (frozenset(), None)
        f = self.P.funcs[u]
        F = flow.fn(self.P, f)
        ev = self.events(F)
        TOP = None
        ins = {b: (TOP, TOP) for b in F.blocks}
        ins[f["entry"]] = (frozenset(), TOP)
        meet = lambda a, b: b if a is None else a if b is None else a & b
        work = [f["entry"]]
        done = {}
        while work:
            b = work.pop()
            clean, dirty = ins[b]
            dirtyc = None
            st = (clean, dirty)
            for n in range(len(F.blocks[b]["el"])):
                for kind, what in ev.get((b, n), ()):
                    clean, dirty = st
                    if kind == "content":
                        # what was computed from the earlier content is stale; what was emptied stays empty
                        keep = lambda s: frozenset(x for x in s if not x.startswith("=")) if s is not None else None
                        st = (None, meet(keep(clean), keep(dirty)))
                    elif kind == "call":
                        c, d = self.summary(what)
                        keep = lambda s: frozenset(x for x in s if not x.startswith("=")) if s is not None else None
                        nc = clean | c if clean is not None and c is not None else None
                        nd = None
                        if dirty is not None and c is not None: nd = meet(nd, dirty | c)
                        if clean is not None and d is not None: nd = meet(nd, keep(clean) | d)
                        if dirty is not None and d is not None: nd = meet(nd, keep(dirty) | d)
                        st = (nc, nd)
                    else:
                        add = {what} if kind == "reset" else {"=" + what}
                        st = tuple(None if s is None else frozenset(s | add) for s in st)
            out = st
            if done.get(b) == (ins[b], out): continue
            done[b] = (ins[b], out)
            self.paths += 1
            for s in F.succ[b]:
                o = ins[s]
                m = (meet(o[0], out[0]), meet(o[1], out[1]))
                if m != o or s not in done:
                    ins[s] = m
                    work.append(s)
        r = ins.get(f["exit"], (frozenset(), None))
        self.sums[u] = r
        return r


class Offsets(UnitHooks):
    def write(self, I, st, loc, val, x, fr):
        sup = getattr(UnitHooks, "write", None)
        if sup: sup(self, I, st, loc, val, x, fr)
        l = loc
        while l[0] in ("f", "ix"):
            if l[0] == "f" and l[1] == OBJLOC:
                st.ts[("set", l[2])] = 1
                # the end is counted from the same start tag as the beginning
                if l[2] == "content_begin": st.ts.pop(("set", "content_end"), None)
            l = l[1]


def run_check():
    P = facts.load(("libsrcml", "parser"))
    pub = api.public(P)
    R = Report("C25", "Derived fields are found from the code: the optional strings of srcml_unit that functions reading the content (and not writing it) fill in. A must-write dataflow over the control-flow graph of every "
               "function that changes the content, with summaries of its callees, must show each derived field reset, or recomputed after the last change, on every path that changes the content. Functions that "
               "change the content of a unit they just created are exempt; reading the body of a unit is only allowed where the unit has none yet. The positions into the content must be set in the same call.")
    E = effects(P)
    rec = P.records.get(REC)
    if not rec: raise facts.AnalysisBroken("no record srcml_unit")
    types = {fd["n"]: fd["t"] for fd in rec["fields"]}
    derived = {}
    writers = []
    for u, f in P.funcs.items():
        if not f.get("blocks"): continue
        F = flow.fn(P, f)
        us = flow.field_uses(P, F, REC)
        w = {x for i, x, k, p in us if k == "w"}
        if CONTENT in w: writers.append(u)
        if (REC, CONTENT) in E.mods[u]: continue
        if not any(x == CONTENT for i, x, k, p in us): continue
        for x in w:
            if optional_string(P, types[x]): derived.setdefault(x, []).append(f["qn"])
    R.require("derived fields", len(derived), 1)
    R.require("functions that change the content", len(writers), 2)
    D = Derived(P, set(derived))
    checked = 0
    callers = {}
    for u in P.funcs:
        for c in E.callees[u]: callers.setdefault(c, set()).add(u)
    for u, f in P.funcs.items():
        if (REC, CONTENT) not in E.mods[u] or not f.get("blocks"): continue
        # judged where the change becomes visible: at functions nobody inside the library calls, and at the public functions
        if f["qn"] not in pub and any((REC, CONTENT) in E.mods[c] for c in callers.get(u, ())): continue
        if f.get("cls") and any(f["qn"].startswith(x) for x in READER): continue
        c, d = D.summary(u)
        checked += 1
        if d is None:
            R.ok("%s: only changes units it created" % f["qn"])
            continue
        have = {x.lstrip("=") for x in d}
        for x in sorted(derived):
            R.ok("%s after %s changed the content" % (x, f["qn"]))
            if x not in have:
                R.violation("%s|stale|%s" % (f["qn"], x), api.where(P, f), "%s can change the content of a unit and leave %s as it was derived from the earlier content (it is filled in by %s)" % (f["qn"], x, ", ".join(sorted(set(derived[x])))))
    R.require("functions judged", checked, 5)
    key_fields(P, R, derived)
    revisions(P, pub, R)
    first_read(P, pub, R)
    offsets(P, pub, R)
    R.cov["control-flow blocks solved"] = D.paths
    R.cov["derived"] = sorted(derived)
    R.assumptions = ["srcml_reader_handler only fills in units through srcml_sax2_reader::read_body (checked to be reached only when the unit has no content)"]
    return R.finish(P)


READER = ("srcml_reader_handler::",)


def key_fields(P, R, derived):
    """a cache may only be trusted under a key if whoever changes the key redoes every cache kept under it"""
    keyed, keys = {}, {}
    ints = {fd["n"] for fd in P.records[REC]["fields"] if P.type(fd["t"])["k"] == "int"}
    for u, f in P.funcs.items():
        if not f.get("blocks"): continue
        F = flow.fn(P, f)
        for i, x in F.ex.items():
            if x["k"] == "BinaryOperator" and x.get("op") in ("!=", "=="):
                s = [F.ex[j] for j in F.sub(i)]
                k = {y["f"] for y in s if y["k"] == "MemberExpr" and y.get("rec") == REC and y.get("f") in ints}
                if k and any(y.get("rec") == "srcml_archive" and y.get("f") == "revision_number" for y in s):
                    for fld in {y for j, y, w, p in flow.field_uses(P, F, REC) if w == "w" and y in derived}:
                        for kk in k: keyed.setdefault(kk, set()).add(fld)
    for kk, fl in keyed.items():
        fl = {x for x in fl if "revision" in x}
        for u, f in P.funcs.items():
            if not f.get("blocks"): continue
            F = flow.fn(P, f)
            us = flow.field_uses(P, F, REC)
            if not any(x == kk and w == "w" for i, x, w, p in us): continue
            got = {x for i, x, w, p in us if w == "w"}
            R.ok("%s changes %s" % (f["qn"], kk))
            for x in sorted(fl - got):
                R.violation("%s|key|%s" % (f["qn"], x), api.where(P, f), "%s changes %s, under which %s is cached, without redoing %s: a later query trusts text of another revision" % (f["qn"], kk, x, x))
    R.cov["caches kept under a revision key"] = sorted(x for v in keyed.values() for x in v if "revision" in x)


def revisions(P, pub, R):
    """text cached for one revision is not returned for another"""
    res, sets = [], {}
    for n in GET:
        S = UnitSession(P, "srcml_unit", opaque=OPAQUE)
        for o in S.step(pub[n], None, {}, Offsets("rev", OPAQUE), n):
            if o.kind != "ret" or o.val is None: continue
            has = any(t[0] == "app" and t[1] == "has" and "revision_number" in show(t) and c[0] == 1 for t, c in o.st.facts.items())
            res.append((n, o, has))
            for k in o.st.ts:
                if k[0] == "set": sets.setdefault(k[1], set()).add(has)
    caches = {x for x, v in sets.items() if v == {True}}
    R.require("caches of one revision", len(caches), 0)
    k = 0
    for n, o, has in res:
        for x in caches:
            if ("set", x) in o.st.ts or not contains(o.val, ("init", ("f", OBJLOC, x))): continue
            k += 1
            R.ok("%s returns %s computed earlier" % (n, x))
            if not any(t[0] == "app" and t[1] == "==" and c[0] == 1 and "revision_number" in show(t) for t, c in o.st.facts.items()):
                R.violation("%s|revision|%s" % (n, x), api.where(P, pub[n]), "%s returns %s without checking that it was computed for the revision now selected" % (n, x))


class ReadBody(Res):
    def __init__(self, *a):
        Res.__init__(self, *a)
        self.sites = []

    def call(self, I, st, qn, args, x, fr):
        Res.call(self, I, st, qn, args, x, fr)
        if qn == "srcml_sax2_reader::read_body":
            u = args[-1]
            u = I.read(st, u[1]) if u[0] == "L" else u
            if u[0] == "addr": loc = u[1]
            else: loc = ("d", u)
            v = I.read(st, ("f", loc, "read_body"))
            self.sites.append((fr.fi.f, x.get("l"), st.truth(v), u))


def first_read(P, pub, R):
    """the body is read only into a unit without one"""
    E = effects(P)
    targets = P.fns("srcml_sax2_reader::read_body")
    if not targets: raise facts.AnalysisBroken("srcml_sax2_reader::read_body not found")
    n = 0
    callers = [f for f in P.funcs.values() if targets[0]["usr"] in E.callees[f["usr"]] and f.get("blocks")]
    for f in callers:
        S = UnitSession(P, "srcml_unit", opaque=OPAQUE)
        h = ReadBody("read", OPAQUE)
        I = Interp(P, h, max_depth=3, budget=60000, opaque=OPAQUE, inline_filter=lambda g, fr: g["qn"] in ("srcml_unit_create", "srcml_archive_check_unit"), effects=E)
        I.esp = True
        I.analyze(f, tag="read_body")
        for g, line, t, u in h.sites:
            n += 1
            R.ok("read_body in %s" % g["qn"])
            if t != 0 and not (u[0] == "addr" and root(u[1])[0] == "h"): R.violation("%s|reread" % g["qn"], api.where(P, g, line), "%s reads the body of a unit that may already have content" % g["qn"])
    R.require("calls of read_body", n, 4)


def offsets(P, pub, R):
    """the positions are set by the call that sets the content"""
    S, steps, viol, start = explore_unit(P, pub, [START, END], hooks=Offsets)
    n = 0
    pos = [x for x in ("content_begin", "content_end", "insert_begin", "insert_end") if any(fd["n"] == x for fd in P.records[REC]["fields"])]
    if len(pos) < 4: raise facts.AnalysisBroken("the position fields of srcml_unit are not recognised")
    for s in steps:
        if s.name != END or s.out.kind != "ret" or s.out.st.truth(s.out.val) != 0: continue
        for p in pos + [CONTENT]:
            n += 1
            R.ok("srcml_write_end_unit sets %s" % p)
            if ("set", p) not in s.out.st.ts:
                R.violation("end_unit|position|%s" % p, api.where(P, pub[END]), "srcml_write_end_unit can succeed without setting %s for the new content" % p)
    R.require("positions", n, 5)
