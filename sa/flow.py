"""Control-flow graph dataflow on single functions: positions, dominance, which member fields an expression writes."""
from . import facts
from .interp import notmpl


class Fn:
    """one function's CFG"""

    def __init__(self, P, f):
        self.P, self.f = P, f
        self.ex = {int(k): v for k, v in f["exprs"].items()}
        self.blocks = {b["id"]: b for b in f.get("blocks", ())}
        self.parent = {}
        for i, x in self.ex.items():
            if x["k"] == "MemberExpr" and "fn" in x: continue        # the callee of a member call: the call itself has the object
            for o in x.get("ops", ()): self.parent.setdefault(o, i)
        self.succ = {b: [s for s in bl["succ"] if s is not None and s >= 0 and s in self.blocks] for b, bl in self.blocks.items()}
        self.pred = {b: [] for b in self.blocks}
        for b, ss in self.succ.items():
            for s in ss: self.pred[s].append(b)
        self.pos = {}
        for b, bl in self.blocks.items():
            for n, e in enumerate(bl["el"]):
                if e["k"] == "E": self.pos.setdefault(e["id"], (b, n))

    def where(self, i):
        """the position in the CFG an expression is evaluated at"""
        while i is not None and i not in self.pos: i = self.parent.get(i)
        return self.pos.get(i)

    def sub(self, i):
        """all subexpressions"""
        out, work = [], [i]
        while work:
            j = work.pop()
            out.append(j)
            work += self.ex[j].get("ops", ())
        return out

    def rpo(self):
        seen, order = set(), []
        st = [(self.f["entry"], iter(self.succ[self.f["entry"]]))]
        seen.add(self.f["entry"])
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                st.pop()
                order.append(b)
        return order[::-1]

    def reach(self, b):
        out, work = set(), [b]
        while work:
            x = work.pop()
            for s in self.succ[x]:
                if s not in out:
                    out.add(s)
                    work.append(s)
        return out

    def dom(self):
        d = getattr(self, "_dom", None)
        if d is None:
            order = self.rpo()
            d = {b: None for b in order}
            d[self.f["entry"]] = {self.f["entry"]}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    ps = [d[p] for p in self.pred[b] if d.get(p) is not None]
                    n = set.intersection(*ps) | {b} if ps else {b}
                    if n != d[b]:
                        d[b] = n
                        ch = True
            self._dom = d
        return d

    def base_var(self, i):
        """the variable or parameter a member access starts from"""
        while True:
            x = self.ex[i]
            if x["k"] == "DeclRefExpr": return x
            o = x.get("ops", ())
            if not o: return x
            i = o[0]


def fn(P, f):
    c = P.__dict__.setdefault("_flow", {})
    r = c.get(f["usr"])
    if r is None: r = c[f["usr"]] = Fn(P, f)
    return r


def written(P, F, i):
    """may the object denoted by the glvalue expression i be modified by the expression it stands in?"""
    ex, p = F.ex, F.parent.get(i)
    if p is None: return False
    x = ex[p]
    k = x["k"]
    if k == "ImplicitCastExpr" or k.endswith("CastExpr"):
        if x.get("ck") == "LValueToRValue": return False
        if x.get("lv"): return False if P.type(x["t"]).get("c") else written(P, F, p)
        if x.get("ck") == "ArrayToPointerDecay":
            t = P.type(x["t"])
            return not (t["k"] == "ptr" and P.type(t["p"]).get("c"))
        return False
    if k == "MemberExpr": return written(P, F, p) if not x.get("arrow") and "f" in x else False
    if k in ("CXXMemberCallExpr", "CXXOperatorCallExpr", "CallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
        d = P.decls.get(x.get("fn"), {})
        ops = x.get("ops", [])
        if (x.get("mc") or x.get("oc") and "cls" in d and not d.get("st")) and ops and ops[0] == i:
            if d.get("const"): return False
            if d.get("n") in ("operator*", "operator->", "operator[]", "begin", "end", "find", "size", "back", "front", "data", "c_str", "get", "value"): return "access"
            return x.get("fn") not in P.funcs
        return not P.type(ex[i]["t"]).get("c")
    if k in ("BinaryOperator", "CompoundAssignOperator"): return x["ops"][0] == i and (x["op"] == "=" or k == "CompoundAssignOperator")
    if k == "UnaryOperator": return x["op"] in ("++", "--", "&")
    if k in ("ParenExpr", "ConditionalOperator"): return written(P, F, p)
    return True


def field_uses(P, F, rec):
    """(expression, field, 'w'|'r', statement-level parent) for every mention of a field of the record"""
    out = []
    for i, x in F.ex.items():
        if x["k"] == "MemberExpr" and "f" in x and x.get("rec") == rec:
            w = written(P, F, i)
            out.append((i, x["f"], "w" if w is True else "r", F.parent.get(i)))
    return out
