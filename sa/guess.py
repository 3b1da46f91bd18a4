"""Speculative parsing: every ++guessing is undone and every mark is rewound on all ways out of a function, exceptions of the grammar included."""
from . import facts
from .flow import Fn
from .interp import notmpl

SKIPPED = ("antlr::TokenStream", "antlr::CharStream", "antlr::MismatchedChar", "antlr::NoViableAltForChar")     # failures of the lexers: they end the parse (that there are none is decided on the character sets)

ANTLR = ("antlr::MismatchedTokenException", "antlr::NoViableAltException", "antlr::SemanticException", "antlr::MismatchedCharException", "antlr::NoViableAltForCharException")      # the runtime's subclasses of RecognitionException


def bases(P, t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        todo += (P.records.get(x) or {}).get("bases", [])
        if x in ANTLR: todo.append("antlr::RecognitionException")
    return seen


class Guess:
    def __init__(self, P, E, classes):
        self.P, self.E = P, E
        self.fns = [f for f in P.funcs.values() if f.get("cls") in classes or any(str(f.get("cls", "")).startswith(c + "::") for c in classes)]
        self.grammar = {t for s in E.raw.values() for t in s if isinstance(t, str) and "antlr::RecognitionException" in bases(P, t) and not t.startswith(SKIPPED)}
        self.sites, self.bad, self.nfn = 0, {}, set()
        self.net = {}
        self.direct = {f["usr"]: self.touches(f) for f in self.fns}
        # helpers that only begin or only end a guess, guard objects included
        for _ in range(3):
            for f in self.fns:
                u = f["usr"]
                if self.direct[u] or any(x.get("fn") in self.net for x in f["exprs"].values() if "fn" in x):
                    r = self.run(f, report=False)
                    if r is not None and r != (0, 0): self.net[u] = r
        for f in self.fns:
            u = f["usr"]
            uses = self.direct[u] or any(x.get("fn") in self.net for x in f["exprs"].values() if "fn" in x) or self.guards(f)
            if not uses: continue
            if u in self.net and self.helper(f): continue
            self.nfn.add(f["qn"])
            self.run(f, report=True)

    def touches(self, f):
        return any(x["k"] == "MemberExpr" and x.get("f") == "guessing" for x in f["exprs"].values()) and any(self.step(f, i, x) for i, x in f["exprs"].items()) \
            or any(self.markop(x) for x in f["exprs"].values())

    def helper(self, f):
        """begins or ends a guess for its callers: straight-line, and called from within the parser"""
        return len(f["blocks"]) <= 4 and not f.get("trys")

    def guards(self, f):
        return any(e["k"] == "X" and e.get("fn") in self.net for b in f.get("blocks", ()) for e in b["el"])

    def markop(self, x):
        if "fn" not in x or not x["k"].endswith("CallExpr"): return 0
        qn = notmpl(self.P.decls.get(x["fn"], {}).get("qn", ""))
        if not qn.startswith("antlr::") and not qn.startswith(("srcMLParser", "StreamMLParser")): return 0
        n = qn.split("::")[-1]
        return 1 if n == "mark" else -1 if n == "rewind" else 0

    def step(self, f, i, x):
        """the change to the number of guesses an expression makes"""
        ex = f["exprs"]
        ops = x.get("ops", ())
        if not ops or ex[str(ops[0])].get("f") != "guessing": return 0
        if x["k"] == "UnaryOperator" and x["op"] in ("++", "--"): return 1 if x["op"] == "++" else -1
        if x["k"] == "CompoundAssignOperator" and isinstance(ex[str(ops[1])].get("cv"), int): return ex[str(ops[1])]["cv"] * (1 if x["op"] == "+=" else -1)
        return 0

    def raises(self, x):
        u = x.get("fn")
        if u is None: return set()
        d = self.P.decls.get(u, {})
        us = [u] + (sorted(self.P.all_overriders(u)) if x.get("vc") else [])
        out = set()
        for v in us: out |= {t for t in self.E.raw.get(v, ()) if t in self.grammar}
        qn = notmpl(d.get("qn", ""))
        if qn.startswith("antlr::Parser::match") or qn.startswith("antlr::LLkParser::match"): out.add("antlr::MismatchedTokenException")
        if x["k"] == "CallExpr" and d.get("qn") is None or u is None: out |= self.grammar
        return out

    def thrown(self, F, x):
        o = x.get("ops", ())
        if not o: return {"antlr::RecognitionException"}
        t = self.P.type(F.ex[o[0]]["t"])["s"].replace("class ", "")
        return {t} if t in self.grammar else set()

    def handlers(self, f, tr, t):
        """blocks an exception of the type goes to from a try; None in the list: out of the function"""
        trys = f.get("trys") or []
        while tr is not None and tr >= 0:
            for h in trys[tr]["h"]:
                if h.get("all") or self.P.type(h["t"])["s"].replace("const ", "").replace(" &", "").replace("class ", "").strip() in bases(self.P, t): return [(h["block"], tr)]
            tr = trys[tr].get("parent")
        return [(None, -1)]

    def inside(self, f, tr, outer):
        trys = f.get("trys") or []
        while tr is not None and tr >= 0:
            if tr == outer: return True
            tr = trys[tr].get("parent")
        return outer == -1

    def run(self, f, report):
        """(net guesses, net marks) of the normal ways out, None when they differ"""
        F = Fn(self.P, f)
        start = (f["entry"], 0, 0, ())
        seen, work, ends = {start}, [start], set()
        own = f["usr"]

        def go(b, d, m, g):
            s = (b, d, m, g)
            if s not in seen:
                seen.add(s)
                work.append(s)

        def bad(kind, line, text):
            if report: self.bad.setdefault((kind, f["qn"]), (f, line, text))
        while work:
            if len(seen) > 40000: raise facts.AnalysisBroken("too many states in %s" % f["qn"])
            bid, d, m, g = work.pop()
            b = F.blocks[bid]
            if bid == f["exit"]:
                ends.add((d, m))
                continue
            for e in b["el"]:
                if e["k"] == "X":
                    if e.get("fn") in self.net:
                        n = self.net[e["fn"]]
                        d, m = d + n[0], m + n[1]
                        g = tuple(z for z in g if z[0] != e.get("v"))
                    continue
                if e["k"] == "D":
                    for v in e["vars"]:
                        x = F.ex.get(v.get("init"), {}) if "init" in v else {}
                        u = x.get("fn")
                        if u in self.net and "Construct" in x["k"]:
                            cls = self.P.decls.get(u, {}).get("cls")
                            for w, n in self.net.items():
                                if self.P.decls.get(w, {}).get("cls") == cls and self.P.funcs[w]["n"].startswith("~"): g = g + ((v["v"], x.get("try", -1), n),)
                    continue
                if e["k"] != "E": continue
                x = F.ex[e["id"]]
                s = self.step(f, e["id"], x)
                if s:
                    d += s
                    if report: self.sites += 1
                    if d < 0 and report and not f["n"].startswith("~"): bad("below", x["l"], "ends a guess it has not begun")
                k = self.markop(x)
                if k: m += k
                types = set()
                if x["k"] == "CXXThrowExpr": types = self.thrown(F, x)
                elif "fn" in x and (x["k"].endswith("CallExpr") or "Construct" in x["k"]):
                    types = self.raises(x)
                    if x["fn"] in self.net and x["fn"] != own:
                        n = self.net[x["fn"]]
                        d, m = d + n[0], m + n[1]
                if (d or m or g) and types:
                    for t in sorted(types):
                        for h, tr in self.handlers(f, x.get("try", -1), t):
                            d2, m2, g2 = d, m, g
                            for v, vt, n in g:
                                if h is None or self.inside(f, vt, tr):
                                    d2, m2 = d2 + n[0], m2 + n[1]
                                    g2 = tuple(z for z in g2 if z[0] != v)
                            if h is not None: go(h, d2, m2, g2)
                            elif d2 > 0: bad("exception", x["l"], "is left by %s raised in %s while guessing: everything read from then on is taken for a guess and not written" % (t, self.P.decls.get(x.get("fn"), {}).get("n", "a throw")))
                elif types:
                    for t in sorted(types):
                        for h, tr in self.handlers(f, x.get("try", -1), t):
                            if h is not None: go(h, d, m, g)
                if x["k"] == "CXXThrowExpr": break
            else:
                if b.get("tryT"): continue
                if d > 4 or m > 8 or d < -4 or m < -8:
                    bad("loop", f["line"], "begins more and more guesses")
                    continue
                for s in F.succ[bid]: go(s, d, m, g)
        if any(e != (0, 0) for e in ends):
            what = sorted(e for e in ends if e != (0, 0))[0]
            bad("exit", f["line"], "can be left %s" % ("while still guessing: everything read from then on is not written" if what[0] > 0 else "with a guess too many undone" if what[0] < 0 else
                                                      "without going back to where a guess began: what was read is not written" if what[1] > 0 else "having gone back to a mark twice"))
        return next(iter(ends)) if len(ends) == 1 else None
