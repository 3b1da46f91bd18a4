"""C27: positions are those of the source."""
from ..interp import *
from .. import facts
from ..par import pmap
from ..report import Report
from .c14 import machine, events, methods, nog, field, notmpl, NAMES, SP

POS2 = ("getLine", "getColumn")


def grammar(P):
    """functions of the parser that consume tokens"""
    calls = {u: {x["fn"] for x in f.get("exprs", {}).values() if "fn" in x} for u, f in P.funcs.items() if (f.get("cls") or "") in ("srcMLParser", SP)}
    hit = {u for u, c in calls.items() if any(P.decls.get(y, {}).get("n") in ("match", "matchNot") and "Parser" in (P.decls[y].get("cls") or "") for y in c)}
    while True:
        more = {u for u, c in calls.items() if u not in hit and c & hit}
        if not more: return hit
        hit |= more


def positions(I, H, P):
    """lines and columns of tokens are terms; those of tags are noted"""
    def val(I, s, o):
        l = I.deref_loc(o)
        v = I.read(s, l)
        if v[0] == "init": v = v[1]
        while v[0] in ("d", "ptrto", "addr", "L", "init"): v = v[1]
        return v

    def get(n):
        def m(I, fr, fi, i, x, s, d, o, a):
            v = val(I, s, o)
            return ("app", n, v)
        return m

    def set_(n):
        def m(I, fr, fi, i, x, s, d, o, a):
            v = val(I, s, o)
            s.ts["p"] = s.ts.get("p", ()) + ((n, v, I.read(s, a[0][1]) if a[0][0] == "L" else a[0]),)
            return ("void",)
        return m
    for c in {d.get("cls") for d in P.decls.values() if d.get("n") in ("getLine", "getColumn", "setLine", "setColumn") and d.get("cls")}:
        if "Scanner" in c: continue
        for n in POS2: I.models[notmpl(c) + "::" + n] = get(n)
        for n in ("Line", "Column"): I.models[notmpl(c) + "::set" + n] = set_("get" + n)
    old = H.ev

    def ev(s, *e):
        old(s, *(e + (s.ts.get("n", 0), e[0] == "tag" and tuple(v for l, v in sorted(s.mem.items(), key=str) if l[0] == "f" and l[2] in ("endline", "endcolumn")))) if e[0] == "tag" else e)
    H.ev = ev


THIS = ("d", ("p", "this"))


def kept(P, _):
    """the fields that keep the end of what was consumed last, and that nothing else changes them"""
    viol, done = {}, {}
    skip = [f for f in methods(P, ("consumeSkippedToken",))]
    L, C = fields(P)
    gram = grammar(P)

    def clobber(I, fr, fi, i, x, s, d, o, a):
        for n in L | C: s.write(("f", THIS, n), ("app", "inner", ("str", n)))
        return ("void",)

    def prepare(record):
        I, H = machine(P, record=record, budget=60000)
        positions(I, H, P)
        for u in gram:
            f = P.funcs[u]
            if f["cls"] == "srcMLParser": I.models[notmpl(f["qn"])] = clobber
        return I, H
    safe = True
    for f in skip:
        I, H = prepare(False)
        for o in I.analyze(f, setup=nog):
            if any(o.st.mem.get(("f", THIS, n), ("init",))[0] == "app" for n in L | C): safe = False
    def more(I, fr, fi, i, x, s, d, o, a):
        if not safe: clobber(I, fr, fi, i, x, s, d, o, a)
        s.facts.pop(("app", "more"), None)
        return ("app", "more")
    for f in methods(P, ("consume",)):
        def bad(k, t): viol["kept " + k] = (f["file"], f["line"], "%s::consume %s" % (SP, t))
        I, H = prepare(False)
        for g in skip: I.models[notmpl(g["qn"])] = more
        for o in I.analyze(f, setup=nog):
            if o.kind != "ret": continue
            done["ways to consume a token"] = done.get("ways to consume a token", 0) + 1
            for n in L | C:
                v = o.st.mem.get(("f", THIS, n))
                if v is not None and not contains(v, ("app", "current", ("int", 1))): v = None
                want = "getLine" if n in L else "getColumn"
                if v is None or want not in show(v) or "inner" in show(v): bad(n, "leaves in %s something else than the end of what it has consumed" % n)
    if not L or not C: viol["kept none"] = ("/repo/src/parser/StreamMLParser.hpp", 0, "no end position is kept when a token is consumed")
    return viol, done


def fields(P):
    """fields of the parser that consume() fills with the line and column before the current token"""
    L, C = set(), set()
    for f in methods(P, ("consume",)):
        I, H = machine(P, record=False, budget=60000)
        positions(I, H, P)
        def write(I, st, loc, v, x, fr):
            if loc[0] == "f" and loc[1] == THIS:
                if v[0] == "app" and v[1] == "getLine" and "current" in str(v): L.add(loc[2])
                elif "getColumn" in str(v) and "current" in str(v): C.add((loc[2], v))
        H.write = write
        I.models[SP + "::consumeSkippedToken"] = lambda I, fr, fi, i, x, s, d, o, a: INT0
        for o in I.analyze(f, setup=nog): pass
    return L, {n for n, v in C if before(v)}


def before(v): return v[0] == "app" and v[1] in ("-", "+") and any(t == ("int", 1) for t in v[2:]) and v[1] == "-" or v[0] == "app" and v[1] == "+" and ("int", -1) in v[2:]


def name(v):
    """the field a value comes from"""
    return field(v[1]) if v[0] == "init" else None


def tags(P, _):
    """a start takes the position of the current token, an end that of what was consumed last"""
    viol, done = {}, {}
    L, C = fields(P)
    runs, saved = [], {}
    for f in methods(P, NAMES):
        I, H = machine(P, depth=6)
        positions(I, H, P)
        for o in I.analyze(f, setup=nog):
            if o.kind == "ret": runs.append((f, o))
    for f, o in runs:
        for l, v in o.st.mem.items():
            if l[0] == "f" and l[1] == THIS:
                if name(v) in L: saved[l[2]] = "el"
                elif name(v) in C: saved[l[2]] = "ec"
                elif v[0] == "app" and v[1] in POS2: saved[l[2]] = {"getLine": "sl", "getColumn": "sc"}[v[1]]
    for f, o in runs:
        def bad(k, t): viol["%s %s" % (f["n"], k)] = (f["file"], f["line"], "%s::%s %s" % (SP, f["n"], t))
        e = [x for x in events(o) if x[0] == "tag"]
        for x in e:
            if x[1] == "STARTTOKEN":
                done["starts of elements"] = done.get("starts of elements", 0) + 1
                for n, k in (("getLine", "sl"), ("getColumn", "sc")):
                    v = [w for m, t, w in o.st.ts.get("p", ()) if m == n and t[:3] == ("app", "tag", ("str", "STARTTOKEN"))]
                    if not v: bad(n, "leaves the start of an element without a %s" % n[3:].lower())
                    elif not (v[-1][0] == "app" and v[-1][1] == n and "current" in str(v[-1])) and saved.get(name(v[-1])) != k: bad(n, "gives the start of an element another %s than that of the current token" % n[3:].lower())
        w = {l[2]: v for l, v in o.st.mem.items() if l[0] == "f" and l[2] in ("endline", "endcolumn")}
        on = any(x[:2] == ("ends", "pop") for x in events(o))
        if any(x[1] == "ENDTOKEN" for x in e) and on:
            done["ends of elements"] = done.get("ends of elements", 0) + 1
            for n, s, k in (("endline", L, "el"), ("endcolumn", C, "ec")):
                m = name(w.get(n, ("int", 0)))
                if m not in s and saved.get(m) != k: bad(n, "gives the end of an element another %s than that of what was consumed last" % n[3:])
            if len({str(l[1]) for l in o.st.mem if l[0] == "f" and l[2] in ("endline", "endcolumn")}) > 1: bad("which", "sets the end of more than one element")
    return viol, done


def comments(P, _):
    """the end of a comment is that of its own text"""
    viol, done = {}, {}
    for f in methods(P, ("consumeSkippedToken", "completeSkip")):
        I, H = machine(P)
        positions(I, H, P)
        for g in P.funcs.values():
            if g.get("cls") == "srcMLParser": I.opaque.add(notmpl(g["qn"]))
        for o in I.analyze(f, setup=nog):
            if o.kind != "ret": continue
            e = events(o)
            def bad(k, t): viol["%s %s" % (f["n"], k)] = (f["file"], f["line"], "%s::%s %s" % (SP, f["n"], t))
            for j, x in enumerate(e):
                if x[0] != "tag" or x[1] != "STARTTOKEN": continue
                done["starts of comments"] = done.get("starts of comments", 0) + 1
                for n in POS2:
                    v = [w for m, t, w in o.st.ts.get("p", ()) if m == n and t[:3] == ("app", "tag", ("str", "STARTTOKEN"))]
                    if not v or v[-1] != ("app", n, ("app", "current", ("int", x[-2]))): bad(n, "gives the start of a comment another %s than that of its first token" % n[3:].lower())
            ends = [x for x in e if x[0] == "tag" and x[1] == "ENDTOKEN"]
            if not ends or not any(x[:2] == ("ends", "pop") for x in e) or len(e) >= 40: continue
            done["ends of comments"] = done.get("ends of comments", 0) + 1
            n = ends[-1][-2]
            w = {l[2]: v for l, v in o.st.mem.items() if l[0] == "f" and l[2] in ("endline", "endcolumn")}
            cur = ("app", "current", ("int", n))
            if w.get("endline") != ("app", "getLine", cur): bad("endline", "gives the end of a comment another line than the one before the current token")
            v = w.get("endcolumn", INT0)
            if not before(v) or ("app", "getColumn", cur) not in v: bad("endcolumn", "gives the end of a comment another column than the one before the current token")
    return viol, done


def written(P, _):
    """line and column of start and end are written in this order"""
    viol, done = {}, {}
    for f in P.funcs.values():
        if f.get("cls") != "srcMLOutput" or "blocks" not in f: continue
        names = {P.decls.get(x.get("fn") or "", {}).get("n") for x in f["exprs"].values()}
        if not ({"getLine", "getColumn"} <= names and any(n and n.startswith("xmlOutputBufferWrite") for n in names)): continue
        I, H = machine(P, record=True)
        positions(I, H, P)
        def call(I, st, qn, a, x, fr):
            if qn.startswith("xmlOutputBufferWrite") and a:
                v = a[-1]
                st.ts["w"] = st.ts.get("w", ()) + (v,)
        H.call = call
        for u, g in P.funcs.items():
            if g["n"] == "positoa" or len(g["params"]) == 1 and g["n"].endswith("toa"): I.models[notmpl(g["qn"])] = lambda I, fr, fi, i, x, s, d, o, a: ("app", "number", I.read(s, a[0][1]) if a[0][0] == "L" else a[0])
        for o in I.analyze(f):
            if o.kind != "ret" or not o.st.ts.get("w"): continue
            done["positions written"] = done.get("positions written", 0) + 1
            seq = []
            for v in o.st.ts["w"]:
                if v[0] == "app" and v[1] == "number":
                    t = v[2]
                    seq.append(t[1] if t[0] == "app" else field(t[1]) if t[0] == "init" else show(t))
                elif v[0] == "str": seq.append(v[1])
            seq = [x for x in seq if x != "INVALID_POS(" and x != ")"]
            if seq != ["getLine", ":", "getColumn", '"', "endline", ":", "endcolumn", '"']: viol["written"] = (f["file"], f["line"], "srcMLOutput::%s writes a position as %s" % (f["n"], " ".join(seq)))
    return viol, done


LEXERS = ("KeywordLexer", "CommentTextLexer")


def lines(P, _):
    """each line end that the lexers read counts as one line"""
    viol, done = {}, {}
    fs = {u: f for u, f in P.funcs.items() if (f.get("cls") or "") in LEXERS and "blocks" in f}

    def calls(f): return [(x, P.decls.get(x["fn"], {})) for x in f["exprs"].values() if "fn" in x and x["k"].endswith("CallExpr")]
    reads, counts = set(), set()
    for sink, names in ((reads, ("match", "matchRange", "matchNot")), (counts, ("newline",))):
        while True:
            more = {u for u, f in fs.items() if u not in sink and any(d.get("n") in names or x["fn"] in sink for x, d in calls(f))}
            if not more: break
            sink |= more

    def const(f, i):
        x = f["exprs"].get(str(i), {})
        while not isinstance(x.get("cv"), int) and len(x.get("ops", ())) == 1: x = f["exprs"].get(str(x["ops"][0]), {})
        return x.get("cv", x.get("v")) if isinstance(x.get("cv", x.get("v")), int) else None

    def guessing(f, i, n=0):
        x = f["exprs"].get(str(i), {})
        if "guessing" in str(x.get("n", "")) or "guessing" in str(x.get("m", "")) or "guessing" in str(x.get("f", "")) or "@guessing" in str(x): return 0
        if n > 8: return None
        got = [guessing(f, y, n + 1) for y in x.get("ops", ())]
        if not any(g is not None for g in got): return None
        if x["k"] == "BinaryOperator" and x.get("op") == "==": return 1
        if x["k"] == "UnaryOperator" and x.get("op") == "!": return 1 - [g for g in got if g is not None][0]
        return [g for g in got if g is not None][0]
    summary = {}

    def flow(f, entry, report):
        """the states (is there a line end not yet counted) a function can end in; None: it counts one more than it has read"""
        out, seen, work = set(), set(), [(max(b["id"] for b in f["blocks"]), entry)]
        blocks = {b["id"]: b for b in f["blocks"]}
        while work:
            b, nl = work.pop()
            if (b, nl) in seen: continue
            seen.add((b, nl))
            b = blocks[b]
            if not b["succ"] and b["id"] == min(blocks): out.add(nl)
            for el in b["el"]:
                x = f["exprs"].get(str(el.get("id", el.get("e", "")))) if el["k"] == "E" else None
                if not x or "fn" not in x or not x["k"].endswith("CallExpr"): continue
                d = P.decls.get(x["fn"], {})
                if d.get("n") == "newline" and d.get("cls") not in LEXERS:
                    if report: done["places that count lines"] = done.get("places that count lines", 0) + 1
                    nl = nl - 1
                    if nl < 0 and report:
                        report("more", x.get("l"), "counts a line where no line end was read")
                        nl = 0
                elif d.get("n") in ("match", "matchRange", "matchNot") and d.get("cls") not in LEXERS:
                    c = [const(f, y) for y in x["ops"][1:]]
                    if nl > 0 and report: report("lost", x.get("l"), "reads on after a line end that it has not counted")
                    nl = int(d["n"] == "match" and c[:1] == [10])
                    if report and f["cls"] == "CommentTextLexer" and d["n"] == "matchRange" and len(c) == 2 and None not in c and c[0] <= 10 <= c[1]: report("range", x.get("l"), "reads a line end among other characters and does not count it")
                elif x["fn"] in reads and x["fn"] in fs:
                    if nl > 0 and report: report("lost", x.get("l"), "reads on after a line end that it has not counted")
                    nl = 0
                elif x["fn"] in counts and x["fn"] in fs and x["fn"] != f["usr"]:
                    k = (x["fn"], nl)
                    if k not in summary:
                        summary[k] = {nl}
                        summary[k] = flow(fs[x["fn"]], nl, None)
                    if summary[k]:
                        if report: done["places that count lines"] = done.get("places that count lines", 0) + 1
                        nl = max(summary[k])
                        if nl < 0 and report:
                            report("more", x.get("l"), "counts a line where no line end was read")
                            nl = 0
            g = guessing(f, b["cond"]) if "cond" in b and len(b["succ"]) == 2 else None
            for j, t in enumerate(b["succ"]):
                if t not in blocks or g is not None and b.get("tk") == "IfStmt" and j != 1 - g: continue
                work.append((t, nl))
        return out
    for u, f in fs.items():
        if u not in reads: continue
        def bad(k, l, t): viol["lines %s %s" % (f["n"], k)] = (f["file"], l or f["line"], "%s::%s %s" % (f["cls"], f["n"], t))
        out = flow(f, 0, bad)
        if any(n > 0 for n in out): bad("end", None, "ends after a line end that it has not counted")
    return viol, done


ISTATE = ("istate",)


def tabs(P, _):
    """each lexer has the size of tabs that was asked for"""
    viol, done = {}, {}
    for f in P.funcs.values():
        if "blocks" not in f: continue
        made = {}
        for b in f["blocks"]:
            for el in b["el"]:
                if el["k"] != "D": continue
                for v in el["vars"]:
                    t = P.type(v["t"]) if "t" in v else {}
                    if notmpl(str(t.get("n", t.get("s", "")))).split("::")[-1] in ("KeywordLexer", "CommentTextLexer"): made[v["v"]] = (v, el)
        if not made: continue
        got = {}
        H = Hooks()
        def caught(I, st, et, fr): st.ts["caught"] = 1
        H.caught = caught
        I = Interp(P, hooks=H, budget=20000, max_depth=2)
        for g in P.funcs.values():
            if g.get("cls") != f.get("cls"): I.opaque.add(notmpl(g["qn"]))
        def size(I, fr, fi, i, x, s, d, o, a):
            s.ts["t"] = s.ts.get("t", ()) + ((I.deref_loc(o), a[0]),)
            return INT0
        for c in ("antlr::CharScanner", "KeywordLexer", "CommentTextLexer"): I.models[c + "::setTabsize"] = size
        ends = [o for o in I.analyze(f) if o.kind == "ret" and not o.st.ts.get("caught")]
        for o in ends:
            vals = {l: v for l, v in o.st.ts.get("t", ())}
            for k in made:
                done["lexers"] = done.get("lexers", 0) + 1
                m = [v for l, v in vals.items() if str(k) in str(l)]
                if not m: viol["tabs %s" % k] = (f["file"], f["line"], "%s makes a lexer that does not know the size of tabs" % f["qn"].split("(")[0])
                elif m[-1][0] == "int": viol["tabs const %s" % k] = (f["file"], f["line"], "%s makes a lexer with a size of tabs of its own" % f["qn"].split("(")[0])
            if len({str(strip(v)) for v in vals.values()}) > 1: viol["tabs differ"] = (f["file"], f["line"], "%s gives the lexers different sizes of tabs" % f["qn"].split("(")[0])
        if ends and not any(o.st.ts.get("t") for o in ends): viol["tabs none"] = (f["file"], f["line"], "%s makes lexers that do not know the size of tabs" % f["qn"].split("(")[0])
    return viol, done


def strip(v):
    while v[0] == "app" and v[1] == "cast": v = v[2]
    return v


def run_check():
    P = facts.load(("libsrcml", "parser", "gen"))
    R = Report("C27", "StreamMLParser, the lexers and the writer are interpreted: every tag that starts an element takes line and column of the current token, every end those before the token after what was consumed last, which nothing "
               "that is skipped over (comments, preprocessor lines, macro calls) may change; each line end that a lexer reads counts exactly once; each lexer knows the size of tabs; the four numbers are written in their order.")
    total = {}
    def job(j):
        try: return j(P, 0)
        except BudgetExceeded: return {}, {"parts too big to follow": 1}
    for viol, done in pmap(job, [kept, tags, comments, written, lines, tabs]):
        for k, v in done.items(): total[k] = total.get(k, 0) + v
        for k, (file, l, t) in viol.items(): R.violation(k, "%s:%s" % (file.replace("/repo/", ""), l), t)
    for k, v in sorted(total.items()):
        R.ok("%s: %d" % (k, v), v)
        R.count(k, v)
    for k, n in (("ways to consume a token", 1), ("starts of elements", 2), ("ends of elements", 1), ("ends of comments", 4), ("positions written", 1), ("places that count lines", 2), ("lexers", 2)): R.require(k, total.get(k, 0), n)
    return R.finish(P)
