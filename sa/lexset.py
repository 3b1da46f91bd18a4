"""The generated lexers over sets of characters: which characters can be next (LA(1)) at each point of each rule, with the constants of the rule's
local variables. A match that not every possible next character passes is where the lexer gives up; a control character that ends up in a token
of another type than the control character token is text no XML parser takes."""
from . import facts
from .interp import notmpl

EOFC = -1
CHARS = [c for c in range(256)] + [EOFC]
BITS = {c: 1 << (c if c >= 0 else 256) for c in CHARS}
FULL = sum(b for c, b in BITS.items() if c != 13)          # the input never delivers a carriage return (checked on its own)
CTL = sum(BITS[c] for c in range(32) if c not in (9, 10, 13))
UNKNOWN = None


def chars(m): return [c for c in CHARS if m & BITS[c]]


def show(m):
    out, cs = [], chars(m)
    i = 0
    while i < len(cs):
        j = i
        while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1: j += 1
        one = lambda c: "EOF" if c < 0 else repr(chr(c)) if 32 <= c < 127 else "0x%02x" % c
        out.append(one(cs[i]) if i == j else "%s..%s" % (one(cs[i]), one(cs[j])))
        i = j + 1
    return ", ".join(out[:6]) + (", ..." if len(out) > 6 else "")


class Lex:
    def __init__(self, P, cls):
        self.P, self.cls = P, cls
        self.fns = {f["n"]: f for f in P.funcs.values() if f.get("cls") == cls}
        self.byusr = {f["usr"]: f for f in self.fns.values()}
        self.memo = {}
        self.bad = {}           # (kind, function, line) -> characters
        self.nmatch, self.nrules = set(), set()
        self.active = set()
        self.sets = {}
        self.types = set()      # token types given to tokens
        self.control = self._enum("CONTROL_CHAR")

    def _enum(self, n):
        for v in self.P.enums.values():
            for e in v.get("k", ()):
                if e["n"] == self.cls + "TokenTypes::" + n: return e["v"]
        raise facts.AnalysisBroken("no token type %s in %s" % (n, self.cls))

    def bitset(self, usr):
        if usr in self.sets: return self.sets[usr]
        m = None
        v = self.P.vars.get(usr)
        ws = self._words(v.get("init")) if v else None
        if ws is not None:
            m = 0
            for c in range(256):
                if c // 32 < len(ws) and ws[c // 32] >> (c % 32) & 1: m |= BITS[c]
        self.sets[usr] = m
        return m

    def _words(self, e):
        if not isinstance(e, dict): return None
        if e.get("k") == "InitListExpr": return [o.get("cv", 0) for o in e.get("ops", [])]
        if e.get("k") == "DeclRefExpr" and str(e.get("v", "")).startswith("G:"):
            v = self.P.vars.get(e["v"][2:])
            return self._words(v.get("init")) if v else None
        for o in e.get("ops", [])[:1]: return self._words(o)
        return None

    # values: integers, or None when not known
    def ev(self, ex, i, env, c):
        x = ex[i]
        if isinstance(x.get("cv"), int): return x["cv"]
        k = x["k"]
        ops = x.get("ops", [])
        if k == "DeclRefExpr":
            v = x.get("v")
            if v in env: return env[v]
            if str(v).startswith("G:") and str(v).endswith("@EOF_CHAR"): return EOFC
            return UNKNOWN
        if k in ("CXXMemberCallExpr", "CallExpr", "CXXOperatorCallExpr"):
            qn = notmpl(self.P.decls.get(x.get("fn"), {}).get("qn", ""))
            if qn.endswith("CharScanner::LA"):
                n = self.ev(ex, ops[1], env, c) if len(ops) > 1 else 1
                return c if n == 1 else UNKNOWN
            if qn == "antlr::BitSet::member" and len(ops) > 1:
                n = self.ev(ex, ops[1], env, c)
                u = self.setof(ex, ops[0])
                m = self.bitset(u) if u else None
                if n is UNKNOWN or m is None: return UNKNOWN
                return int(n in BITS and bool(m & BITS[n]))
            return UNKNOWN
        if k == "UnaryOperator" and ops:
            v = self.ev(ex, ops[0], env, c)
            if v is UNKNOWN: return v
            return {"!": int(not v), "-": -v, "+": v, "~": ~v}.get(x["op"], UNKNOWN)
        if k == "BinaryOperator" and len(ops) == 2:
            a = self.ev(ex, ops[0], env, c)
            op = x["op"]
            if op == "&&":
                b = self.ev(ex, ops[1], env, c)
                return 0 if a == 0 or b == 0 else 1 if a is not UNKNOWN and b is not UNKNOWN else UNKNOWN
            if op == "||":
                b = self.ev(ex, ops[1], env, c)
                return 1 if a or b else 0 if a == 0 and b == 0 else UNKNOWN
            if op == "=": return self.ev(ex, ops[1], env, c)
            b = self.ev(ex, ops[1], env, c)
            if a is UNKNOWN or b is UNKNOWN: return UNKNOWN
            return {"==": lambda: int(a == b), "!=": lambda: int(a != b), "<": lambda: int(a < b), ">": lambda: int(a > b), "<=": lambda: int(a <= b), ">=": lambda: int(a >= b),
                    "+": lambda: a + b, "-": lambda: a - b, "&": lambda: a & b, "|": lambda: a | b}.get(op, lambda: UNKNOWN)()
        if k == "ConditionalOperator":
            a = self.ev(ex, ops[0], env, c)
            return UNKNOWN if a is UNKNOWN else self.ev(ex, ops[1 if a else 2], env, c)
        if k == "ImplicitCastExpr" or k.endswith("CastExpr") or k in ("ParenExpr", "ConstantExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"):
            if x.get("ck") in ("UserDefinedConversion", "ArrayToPointerDecay", "PointerToBoolean", "NullToPointer"): return UNKNOWN
            return self.ev(ex, ops[0], env, c) if ops else UNKNOWN
        return UNKNOWN

    def setof(self, ex, i):
        x = ex[i]
        if x["k"] == "DeclRefExpr" and str(x.get("v", "")).startswith("G:"): return x["v"][2:]
        return self.setof(ex, x["ops"][0]) if x.get("ops") else None

    def usesla(self, ex, i):
        st = [i]
        while st:
            j = st.pop()
            qn = notmpl(self.P.decls.get(ex[j].get("fn"), {}).get("qn", "")) if "fn" in ex[j] else ""
            if qn.endswith("CharScanner::LA"): return True
            st += ex[j].get("ops", ())
        return False

    def split(self, ex, i, env, mask):
        """(characters the condition can be true with, characters it can be false with)"""
        if not self.usesla(ex, i):
            v = self.ev(ex, i, env, UNKNOWN)
            return (mask if v is UNKNOWN or v else 0, mask if not v else 0)
        t = f = 0
        for c in chars(mask):
            v = self.ev(ex, i, env, c)
            if v is UNKNOWN or v: t |= BITS[c]
            if not v: f |= BITS[c]
        return t, f

    def fail(self, kind, f, line, m):
        k = (kind, f["n"], line)
        self.bad[k] = self.bad.get(k, 0) | m

    def rule(self, f, mask, n, ctl, create=UNKNOWN):
        """exit states {(mask, consumed 0..2, control character among them)} of a rule entered with the characters mask"""
        key = (f["n"], mask, n, ctl, create)
        if key in self.memo: return self.memo[key]
        if key in self.active or len(self.active) > 30: return {(FULL, 2, ctl)}
        self.active.add(key)
        r = self._rule(f, mask, n, ctl, create)
        self.active.discard(key)
        self.memo[key] = r
        return r

    def _rule(self, f, mask, n, ctl, create):
        self.nrules.add(f["n"])
        ex = {int(k): v for k, v in f["exprs"].items()}
        blocks = {b["id"]: b for b in f["blocks"]}
        trys = f.get("trys") or []
        out = set()
        start = (f["entry"], mask, n, ctl, frozenset() if create is UNKNOWN or not f["params"] else frozenset([(f["params"][0]["v"], create)]))
        seen, work = {start}, [start]
        top = f["n"] == "nextToken"

        def push(b, m, nn, cc, env):
            if b is None or b < 0 or not m: return
            s = (b, m, nn, cc, frozenset(env.items()))
            if s not in seen:
                seen.add(s)
                work.append(s)
        while work:
            if len(seen) > 20000: raise facts.AnalysisBroken("too many states in %s" % f["qn"])
            bid, m, nn, cc, envs = work.pop()
            env = dict(envs)
            b = blocks[bid]
            if bid == f["exit"]:
                out.add((m, nn, cc))
                continue
            states = [(m, nn, cc, env)]
            for e in b["el"]:
                if not states: break
                if e["k"] == "D":
                    for v in e["vars"]:
                        for _, _, _, en in states:
                            en.pop(v["v"], None)
                            if "init" in v:
                                val = self.ev(ex, v["init"], en, UNKNOWN)
                                if val is not UNKNOWN: en[v["v"]] = val
                    continue
                if e["k"] != "E": continue
                x = ex[e["id"]]
                if x["k"] in ("BinaryOperator", "CompoundAssignOperator") and (x["op"] == "=" or x["k"] == "CompoundAssignOperator") and ex[x["ops"][0]]["k"] == "DeclRefExpr":
                    v = ex[x["ops"][0]].get("v")
                    for _, _, _, en in states:
                        val = self.ev(ex, x["ops"][1], en, UNKNOWN) if x["op"] == "=" else UNKNOWN
                        en.pop(v, None)
                        if val is not UNKNOWN: en[v] = val
                elif x["k"] == "UnaryOperator" and x["op"] in ("++", "--") and ex[x["ops"][0]]["k"] == "DeclRefExpr":
                    v = ex[x["ops"][0]].get("v")
                    for _, _, _, en in states:
                        if v in en: en[v] = max(-1, min(2, en[v] + (1 if x["op"] == "++" else -1)))
                elif x["k"] == "CXXThrowExpr":
                    if self.guarded(trys, x, top): states = []
                    else:
                        for st in states: self.fail("throw", f, x["l"], st[0])
                        states = []
                elif "fn" in x and x["k"].endswith("CallExpr"): states = self.call(f, ex, x, states, trys, top)
            for m, nn, cc, env in states:
                self.branch(f, ex, b, m, nn, cc, env, push)
        return out

    def guarded(self, trys, x, top):
        """a throw inside of a syntactic predicate only ends the guess; the handlers of nextToken pass the failure on"""
        return not top and bool(trys) and x.get("try", -1) >= 0

    def call(self, f, ex, x, states, trys, top):
        d = self.P.decls.get(x["fn"], {})
        qn = notmpl(d.get("qn", ""))
        ops = x.get("ops", [])
        new = []
        if qn.split("::")[-1] in ("match", "matchRange", "matchNot") and qn.startswith("antlr::"):
            name = qn.split("::")[-1]
            for m, nn, cc, env in states:
                allow = FULL & ~BITS[EOFC]
                args = [self.ev(ex, o, env, UNKNOWN) for o in ops[1:]]
                if name == "match":
                    if args and args[0] is not UNKNOWN: allow = BITS.get(args[0] & 255 if args[0] >= -128 and args[0] != EOFC else args[0], 0)
                    else:
                        u = self.setof(ex, ops[1])
                        allow = (self.bitset(u) if u else None)
                        if allow is None: raise facts.AnalysisBroken("match of an unknown set in %s line %d" % (f["qn"], x["l"]))
                elif name == "matchRange":
                    if UNKNOWN in args: raise facts.AnalysisBroken("match of an unknown range in %s line %d" % (f["qn"], x["l"]))
                    lo, hi = [a & 255 for a in args]
                    allow = sum(BITS[c] for c in range(lo, hi + 1))
                elif name == "matchNot":
                    if UNKNOWN in args: raise facts.AnalysisBroken("match of an unknown character in %s line %d" % (f["qn"], x["l"]))
                    allow &= ~BITS.get(args[0] & 255, 0)
                self.nmatch.add((f["n"], x["l"]))
                if m & ~allow and not self.guarded(trys, x, top): self.fail("match", f, x["l"], m & ~allow)
                ok = m & allow
                if ok & CTL: new.append(self.after(env, ok & CTL, nn, cc or (f["n"], x["l"])))
                if ok & ~CTL: new.append(self.after(env, ok & ~CTL, nn, cc))
            return new
        if qn.endswith("CharScanner::mark"):
            for m, nn, cc, env in states:
                env = dict(env)
                env["mark"], env["rec"] = (m, nn, cc), ()
                new.append((m, nn, cc, env))
            return new
        if qn.endswith("CharScanner::rewind"):
            for m, nn, cc, env in states:
                env = dict(env)
                rec = env.pop("rec", ())
                m0, nn, cc = env.pop("mark", (FULL, 2, cc))
                bad = dict(env)
                bad.update(self.handled(f, ex))
                bad.pop("q", None)
                new.append((m0, nn, cc, bad))
                if rec:
                    env["q"] = rec[1:]
                    m0 &= rec[0]
                if m0: new.append((m0, nn, cc, env))
            return new
        if x["fn"] in self.byusr and self.byusr[x["fn"]]["n"].startswith("m") and self.byusr[x["fn"]]["n"][1:2].isupper():
            g = self.byusr[x["fn"]]
            for m, nn, cc, env in states:
                create = self.ev(ex, ops[1], env, UNKNOWN) if len(ops) > 1 else UNKNOWN
                for m2, n2, c2 in self.rule(g, m, 0 if create else nn, False if create else cc, create):
                    new.append((m2, nn, cc, dict(env)) if create else (m2, n2, c2, dict(env)))
            return new
        if qn.endswith("CharScanner::makeToken"):
            for m, nn, cc, env in states:
                t = self.ev(ex, ops[1], env, UNKNOWN) if len(ops) > 1 else UNKNOWN
                self.types.add(t)
                if cc and (t is UNKNOWN or t != self.control or nn != 1): self.bad[("control", cc[0], cc[1])] = CTL
                if nn == 0 and t == self.control: self.fail("empty", f, x["l"], m)
        if qn.split("::")[-1] in ("consume", "consumeUntil") and qn.startswith("antlr::"):
            return [(FULL, min(2, nn + 1), cc or ((f["n"], x["l"]) if m & CTL else False), env) for m, nn, cc, env in states]
        return states

    def after(self, env, ok, nn, cc):
        """the state after a match of one of the characters ok"""
        env = dict(env)
        if "rec" in env: env["rec"] = env["rec"][:4] + (ok,)
        q = env.pop("q", ())
        if len(q) > 1: env["q"] = q[1:]
        return (q[0] if q else FULL, min(2, nn + 1), cc, env)

    def handled(self, f, ex):
        """what the handlers of the rule's syntactic predicates set"""
        out = {}
        blocks = {b["id"]: b for b in f["blocks"]}
        for t in f.get("trys") or []:
            for h in t["h"]:
                for e in blocks[h["block"]]["el"]:
                    x = ex[e["id"]] if e["k"] == "E" else {"k": ""}
                    if x["k"] == "BinaryOperator" and x["op"] == "=" and ex[x["ops"][0]]["k"] == "DeclRefExpr" and isinstance(ex[x["ops"][1]].get("cv"), int): out[ex[x["ops"][0]]["v"]] = ex[x["ops"][1]]["cv"]
        return out

    def branch(self, f, ex, b, m, nn, cc, env, push):
        succ = b["succ"]
        if b.get("tk") == "SwitchStmt":
            blocks = {z["id"]: z for z in f["blocks"]}
            rest, la = m, self.usesla(ex, b["cond"])
            v = None if la else self.ev(ex, b["cond"], env, UNKNOWN)
            for s in succ:
                t = blocks.get(s)
                if t is None: continue
                if t.get("case"):
                    lo = int(t["case"][0])
                    hi = int(t["casehi"]) if "casehi" in t else lo
                    if la:
                        mm = sum(BITS[c] for c in chars(m) if lo <= c <= hi)
                        rest &= ~mm
                        push(s, mm, nn, cc, dict(env))
                    elif v is UNKNOWN or lo <= v <= hi: push(s, m, nn, cc, dict(env))
                else: dflt = s
            cases = [blocks[s] for s in succ if s in blocks and blocks[s].get("case")]
            for s in succ:
                if s in blocks and not blocks[s].get("case"):
                    if la: push(s, rest, nn, cc, dict(env))
                    elif v is UNKNOWN or not any(int(t["case"][0]) <= v <= int(t.get("casehi", t["case"][0])) for t in cases): push(s, m, nn, cc, dict(env))
            return
        if b.get("tryT"): return
        if len(succ) == 2 and "cond" in b:
            t, fl = self.split(ex, b["cond"], env, m)
            push(succ[0], t, nn, cc, dict(env))
            push(succ[1], fl, nn, cc, dict(env))
            return
        for s in succ: push(s, m, nn, cc, dict(env))

    def run(self):
        f = self.fns.get("nextToken")
        if not f: raise facts.AnalysisBroken("no nextToken in %s" % self.cls)
        self.rule(f, FULL, 0, False)
        return self
