"""Whole-program effect summaries: which member fields a function may write (directly or through its callees),
which functions it may reach, and whether an explicit throw may leave it."""
from .interp import notmpl


class Effects:
    def __init__(self, P):
        self.P = P
        self.direct, self.callees, self.ext, self.news, self.throwing = {}, {}, {}, {}, {}
        for u, f in P.funcs.items(): self._scan(u, f)
        self._close()

    def _scan(self, u, f):
        P = self.P
        ex = {int(k): v for k, v in f["exprs"].items()}
        parent = {}
        for i, x in ex.items():
            if x["k"] == "MemberExpr" and "fn" in x: continue        # the callee of a member call: the call itself has the object
            for o in x.get("ops", ()): parent.setdefault(o, i)
        mods, calls, ext, news = set(), set(), set(), set()
        thr = False

        def target(fn, virt):
            for t in ([fn] + sorted(P.all_overriders(fn)) if virt else [fn]):
                if t in P.funcs: calls.add(t)
                elif t in P.decls: ext.add(notmpl(P.decls[t]["qn"]))

        def written(i):
            """may the object denoted by the glvalue expression i be modified through this use?"""
            p = parent.get(i)
            if p is None: return False
            x = ex[p]
            k = x["k"]
            if k == "ImplicitCastExpr" or k.endswith("CastExpr"):
                if x.get("ck") == "LValueToRValue": return False
                if x.get("lv"):
                    return False if P.type(x["t"]).get("c") else written(p)
                if x.get("ck") == "ArrayToPointerDecay":
                    t = P.type(x["t"])
                    return not (t["k"] == "ptr" and P.type(t["p"]).get("c"))
                return False
            if k == "MemberExpr": return written(p) if not x.get("arrow") and "f" in x else False
            if k in ("CXXMemberCallExpr", "CXXOperatorCallExpr", "CallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
                d = P.decls.get(x.get("fn"), {})
                ops = x.get("ops", [])
                if (x.get("mc") or x.get("oc") and "cls" in d and not d.get("st")) and ops and ops[0] == i:
                    if d.get("const"): return False
                    return x.get("fn") not in P.funcs       # a repository method: its own effects are counted
                return not P.type(ex[i]["t"]).get("c")
            if k in ("BinaryOperator", "CompoundAssignOperator"): return x["ops"][0] == i and (x["op"] == "=" or k == "CompoundAssignOperator")
            if k == "UnaryOperator": return x["op"] in ("++", "--", "&")
            if k in ("ParenExpr", "ConditionalOperator"): return written(p)
            return True

        for i, x in ex.items():
            k = x["k"]
            if k == "MemberExpr" and "f" in x and written(i): mods.add((x.get("rec"), x["f"]))
            if "fn" in x and k != "DeclRefExpr": target(x["fn"], x.get("vc"))
            if k == "DeclRefExpr" and "fn" in x and x["fn"] in P.funcs: calls.add(x["fn"])   # address taken: may be called
            if k == "CXXDeleteExpr" and x.get("dfn"): target(x["dfn"], True)
            if k == "CXXNewExpr": news.add(P.type(x["at"])["s"])
            if k == "CXXThrowExpr" and x.get("try") is None: thr = True
        for b in f.get("blocks", ()):
            for e in b["el"]:
                if e["k"] in ("X", "XM") and e.get("fn"): target(e["fn"], False)
                if e["k"] == "I" and "f" in e: mods.add((f.get("cls"), e["f"]))
        self.direct[u], self.callees[u], self.ext[u], self.news[u], self.throwing[u] = mods, calls, ext, news, thr

    def _close(self):
        self.mods = {u: set(m) for u, m in self.direct.items()}
        self.reach = {u: {u} | c for u, c in self.callees.items()}
        self.extc = {u: set(e) for u, e in self.ext.items()}
        self.newc = {u: set(e) for u, e in self.news.items()}
        self.may_throw = dict(self.throwing)
        users = {}
        for u, c in self.callees.items():
            for v in c: users.setdefault(v, set()).add(u)
        work = list(self.mods)
        inwork = set(work)
        while work:
            v = work.pop()
            inwork.discard(v)
            for u in users.get(v, ()):
                n = len(self.mods[u]) + len(self.reach[u]) + len(self.extc[u]) + len(self.newc[u]) + self.may_throw[u]
                self.mods[u] |= self.mods[v]
                self.reach[u] |= self.reach[v]
                self.extc[u] |= self.extc[v]
                self.newc[u] |= self.newc[v]
                if self.may_throw[v] and not self.P.decls.get(u, {}).get("ne"): self.may_throw[u] = True
                if len(self.mods[u]) + len(self.reach[u]) + len(self.extc[u]) + len(self.newc[u]) + self.may_throw[u] != n and u not in inwork:
                    inwork.add(u)
                    work.append(u)


def effects(P):
    e = getattr(P, "_effects", None)
    if e is None:
        e = P._effects = Effects(P)
    return e
