"""From the lexers' text to the writer: the text of a token is what was matched, and every token that is no element is written as text once."""
from . import facts
from .interp import *

OUT = "srcMLOutput"
LEXERS = ("KeywordLexer", "CommentTextLexer")
MUTATORS = ("erase", "clear", "resize", "assign", "replace", "insert", "append", "push_back", "pop_back", "swap", "operator=", "operator+=")


def vocabulary(P, prefix):
    """{name: value} of a generated token vocabulary"""
    out = {}
    for e in P.enums.values():
        for k in e.get("k", ()):
            if k["n"].startswith(prefix + "TokenTypes::"): out[k["n"].split("::")[1]] = k["v"]
    return out


def element_map(P):
    """{token type: (name, Element strings, line)} and whether the first attribute takes the token's text"""
    best = None
    for u, v in P.vars.items():
        if "init" not in v or ("@S@%s@" % OUT) not in u: continue
        rows = {}

        def consts(n):
            if "ec" in n: return [n["ec"]]
            return [e for o in n.get("ops", ()) for e in consts(o)]

        def walk(n):
            ops = n.get("ops", ())
            if len(ops) >= 2 and isinstance(ops[0].get("cv"), int) and any(e.startswith("srcMLParserTokenTypes::") for e in consts(ops[0])):
                fl = leaves(ops[1])
                rows[ops[0]["cv"]] = (consts(ops[0])[0].split("::")[1], fl, n.get("l", 0))
                return
            for o in ops: walk(o)

        def leaves(n):
            if "sv" in n: return [n["sv"]]
            if n["k"] == "CXXNullPtrLiteralExpr" or n.get("ck") == "NullToPointer": return [None]
            if "ec" in n: return [("ns", n["ec"])]
            if n.get("cv") == 0 and not n.get("ops"): return [None]
            return [z for o in n.get("ops", ()) for z in leaves(o)]
        walk(v["init"])
        if rows and (best is None or len(rows) > len(best[1])): best = (u, rows)
    if best is None: raise facts.AnalysisBroken("the table of elements of %s was not found" % OUT)
    return best


def lexer_text(P):
    """[(f, line, key, text)] operations that change the text of a token or take characters without keeping them; number of rules seen"""
    bad, n = [], 0
    skip = -1
    for f in P.funcs.values():
        if f.get("cls") not in LEXERS and not (f.get("cls") in P.records and set(LEXERS) & {c for c in LEXERS if f.get("cls") in ancestors(P, c)}): continue
        ex = {int(k): v for k, v in f["exprs"].items()}
        n += 1
        created = set()
        for i, x in ex.items():
            d = P.decls.get(x.get("fn"), {})
            qn = notmpl(d.get("qn", ""))
            if not x["k"].endswith("CallExpr"): continue
            ops = x.get("ops", ())
            if d.get("n") in MUTATORS and ops:
                o = peel(ex, ops[0])
                if o.get("f") == "text" and str(o.get("rec", "")).startswith("antlr::"): bad.append((f, x["l"], "%s|text" % f["n"], "changes the text already matched for the token"))
            if qn.startswith("antlr::CharScanner::") and d["n"] in ("setText", "setInputState", "setTabsize") and d["n"] == "setText": bad.append((f, x["l"], "%s|setText" % f["n"], "replaces the text matched for the token"))
            if qn == "antlr::CharScanner::resetText" and f["n"] != "nextToken": bad.append((f, x["l"], "%s|resetText" % f["n"], "drops the text matched so far"))
            if qn.startswith(("antlr::InputBuffer::", "antlr::CharBuffer::", "antlr::LexerInputState::")) and d["n"] in ("consume", "reset", "rewind", "commit", "getChar", "initialize"): bad.append((f, x["l"], "%s|input" % f["n"], "takes characters from the input without keeping them"))
            if qn.startswith("antlr::CharScanner::") and d["n"] in ("consumeUntil", "recover"): pass
            if d.get("n") == "makeToken":
                for o in ops[1:]:
                    y = peel(ex, o)
                    if y["k"] == "DeclRefExpr" and "v" in y: created.add(y["v"])
            if d.get("n") == "setText" and ("Token" in str(d.get("cls"))):
                a = peel(ex, ops[1]) if len(ops) > 1 else {}
                if not whole_text(P, ex, a): bad.append((f, x["l"], "%s|tokentext" % f["n"], "gives a token a text that is not all that was matched for it"))
        for i, x in ex.items():
            if x["k"] == "BinaryOperator" and x["op"] == "=":
                a, b = peel(ex, x["ops"][0]), ex[x["ops"][1]]
                if a.get("f") == "saveConsumedInput": bad.append((f, x["l"], "%s|save" % f["n"], "switches off keeping the characters that are matched"))
                if a["k"] == "DeclRefExpr" and a.get("v") in created and (b.get("cv") == skip or peel(ex, x["ops"][1]).get("cv") == skip): bad.append((f, x["l"], "%s|skip" % f["n"], "lets a rule's token be skipped: its text is lost"))
    for u, f in P.funcs.items():
        if f.get("cls") in LEXERS and f["n"] in ("append", "consume", "resetText", "LA", "consumeUntil", "match", "matchNot", "matchRange") and any(b.startswith("antlr::CharScanner") for b in [P.decls.get(o, {}).get("cls", "") for o in overridden(P, u)]):
            bad.append((f, f["line"], "%s|override" % f["n"], "replaces how the lexer keeps the characters it matches"))
    return bad, n


def overridden(P, u):
    return [o for o in P.decls if u in P.all_overriders(o)] if P.decls[u].get("virt") or True else []


def ancestors(P, c):
    seen, todo = set(), [c]
    while todo:
        x = todo.pop()
        for b in (P.records.get(x) or {}).get("bases", ()):
            if b not in seen: seen.add(b); todo.append(b)
    return seen


def peel(ex, i):
    x = ex[i]
    while (x["k"].endswith("CastExpr") or x["k"] in ("ParenExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups")) and len(x.get("ops", ())) == 1 and "cv" not in x: x = ex[x["ops"][0]]
    return x


def whole_text(P, ex, a):
    """text.substr(_begin, text.length() - _begin), or the text itself"""
    if a["k"] in ("CXXConstructExpr",) and a.get("ops"): return whole_text(P, ex, peel(ex, a["ops"][0]))
    if a.get("f") == "text": return True
    d = P.decls.get(a.get("fn"), {})
    if d.get("n") == "getText" and notmpl(d["qn"]).startswith("antlr::CharScanner"): return True
    if d.get("n") != "substr": return False
    o = peel(ex, a["ops"][0])
    if o.get("f") != "text": return False
    b = peel(ex, a["ops"][1]) if len(a["ops"]) > 1 else {}
    if b.get("k") != "DeclRefExpr": return False
    if len(a["ops"]) < 3: return True
    c = peel(ex, a["ops"][2])
    if c["k"] == "CXXDefaultArgExpr": return True
    if c["k"] != "BinaryOperator" or c["op"] != "-": return False
    l, r = peel(ex, c["ops"][0]), peel(ex, c["ops"][1])
    return P.decls.get(l.get("fn"), {}).get("n") in ("length", "size") and peel(ex, l["ops"][0]).get("f") == "text" and r.get("v") == b.get("v")


# ---------------------------------------------------------------- the writer
TOKEN, NEXT = ("token", "next"), ("h", "next token")


class Writer(Hooks):
    """between two tokens taken from the parser, the first was written"""
    def __init__(self, W): self.W, self.bad, self.ntok, self.nsink = W, {}, 0, 0

    def say(self, fr, kind, line, text): self.bad.setdefault((kind, fr.fi.f["qn"].split("(")[0]), (fr.fi.f, line, text))

    def settle(self, st, fr, line):
        if not st.ts.get(("have",)): return
        n = st.ts.get(("out",), 0)
        t = st.con(("type", TOKEN))
        if t[0] == t[1] and t[0] in self.W.silent:
            if n and t[0] == self.W.eof: self.say(fr, "eof", line, "the end of the input is written as text")
            return
        if st.con(("found",))[:2] == (1, 1) and any(k[0] == "init" and contains(k, ("it", "found")) and 0 in st.con(k)[2] for k in st.facts):
            if n: self.say(fr, "both", line, "a token that is written as an element is written as text too")
            return
        if n == 0: self.say(fr, "lost", line, "a token taken from the parser is not written")
        elif n > 1: self.say(fr, "twice", line, "a token taken from the parser is written more than once")

    def ret(self, I, st, val, el, fr):
        if fr.parent is None: self.settle(st, fr, el if isinstance(el, int) else fr.fi.f["line"])


class Out:
    def __init__(self, P, E):
        self.P, self.E = P, E
        self.eof = 1
        k = vocabulary(P, "srcMLParser")
        self.unit = k.get("SUNIT")
        self.silent = {self.eof, self.unit}
        self.mapvar, self.rows = element_map(P)
        self.sinks = self.find_sinks()

    def find_sinks(self):
        """functions of the writer that are given a std::string and write text"""
        P, out = self.P, set()
        for u, f in P.funcs.items():
            if f.get("cls") != OUT and "/parser/srcMLOutput" not in f["file"]: continue
            if any(P.type(p["t"]).get("s", "").find("basic_string") >= 0 for p in f["params"]) and self.writes(u, set()) and not self.feeds(u): out.add(u)
        return out

    def writes(self, u, seen):
        if u in seen: return False
        seen.add(u)
        f = self.P.funcs.get(u)
        if not f: return self.P.decls.get(u, {}).get("n", "") in ("xmlTextWriterWriteRawLen", "xmlTextWriterWriteRaw", "xmlTextWriterWriteString", "xmlOutputBufferWrite", "xmlOutputBufferWriteString", "xmlOutputBufferWriteEscape")
        return any(self.writes(x["fn"], seen) for x in f["exprs"].values() if "fn" in x and x["k"].endswith("CallExpr") and (x["fn"] in self.P.funcs and self.P.funcs[x["fn"]].get("cls") == OUT or x["fn"] not in self.P.funcs))

    def feeds(self, u): return any(notmpl(self.P.decls.get(x.get("fn"), {}).get("qn", "")).endswith("::nextToken") for x in self.P.funcs[u]["exprs"].values())

    def run(self):
        bad, ntok, nsink, fns = {}, 0, 0, 0
        for u, f in sorted(self.P.funcs.items()):
            if f.get("cls") != OUT: continue
            if not self.feeds(u): continue
            fns += 1
            H = Writer(self)
            I = Interp(self.P, H, max_depth=6, budget=60000, effects=self.E, inline_filter=lambda g, fr: g.get("cls") == OUT and g["usr"] not in self.sinks)
            self.models(I, H)
            I.joinkey = lambda st: (frozenset(st.ts.items()), st.con(("type", TOKEN))[:2], st.con(("found",))[:2], frozenset((k, c) for k, c in st.facts.items() if k[0] == "init" and contains(k, ("it", "found"))))
            I.analyze(f, setup=lambda I, st, fr: st.mem.update({("g", "c:@N@antlr@S@Token@EOF_TYPE"): ("int", self.eof)}))
            bad.update(H.bad)
            ntok += H.ntok
            nsink += H.nsink
        return bad, ntok, nsink, fns

    def models(self, I, H):
        P = self.P

        def pv(st, a): return I.read(st, a[1]) if a[0] == "L" else a

        def nexttoken(I, fr, fi, i, x, s, d, o, a):
            H.settle(s, fr, x["l"])
            H.ntok += 1
            s.facts = {k: v for k, v in s.facts.items() if not contains(k, TOKEN) and k != ("found",) and not contains(k, ("it", "found"))}
            s.ts = {("have",): 1}
            s.mem[NEXT] = TOKEN
            return ("L", NEXT)
        for c in ("TokenStream", "antlr::TokenStream", "StreamMLParser"): I.models[c + "::nextToken"] = nexttoken
        I.models["antlr::TokenRefCount::ctor"] = lambda I, fr, fi, i, x, s, d, a: pv(s, a[0]) if a else INT0

        def ref(I, fr, fi, i, x, s, d, o, a):
            if o is None: return NotImplemented
            v = I.read(s, I.deref_loc(o))
            if d["n"] in ("operator->", "get"): return ("ptrto", v)
            if d["n"] == "operator*": return ("L", ("d", ("ptrto", v)))
            if d["n"] == "operator=":
                s.write(I.deref_loc(o), pv(s, a[0]))
                return o
            return NotImplemented
        I.models["antlr::TokenRefCount::*"] = ref

        def gettype(I, fr, fi, i, x, s, d, o, a): return ("type", o[1]) if o is not None and o[0] == "ptrto" else NotImplemented

        def gettext(I, fr, fi, i, x, s, d, o, a): return ("text", o[1]) if o is not None and o[0] == "ptrto" else NotImplemented
        for c in {d.get("cls") for d in P.decls.values() if d.get("n") == "getText" and d.get("cls")}:
            I.models[notmpl(c) + "::getText"] = gettext
            I.models[notmpl(c) + "::getType"] = gettype

        def find(I, fr, fi, i, x, s, d, o, a):
            if d["n"] == "find" and a and pv(s, a[0]) == ("type", TOKEN): return ("it", "found")
            if d["n"] in ("end", "cend"): return ("it", "end")
            if d["n"] in ("count", "contains") and pv(s, a[0]) == ("type", TOKEN):
                s.facts.setdefault(("found",), (0, 1, frozenset()))
                return ("found",)
            if d["n"] in ("at", "operator[]"): return ("L", ("d", ("it", "found")))
            return NotImplemented
        for c in ("std::unordered_map", "std::map"): I.models[c + "::*"] = find

        def compare(neq):
            def m(I, fr, fi, i, x, s, d, o, a):
                v = [pv(s, y) for y in ([("L", I.deref_loc(o))] if o is not None else []) + list(a)]
                if sorted(v) == [("it", "end"), ("it", "found")]:
                    s.facts.setdefault(("found",), (0, 1, frozenset()))
                    return ("found",) if neq else app("==", ("found",), INT0)
                return NotImplemented
            return m
        for c in ("std::__detail::", "std::", "std::__detail::_Node_iterator::", "std::__detail::_Node_const_iterator::", "std::_Rb_tree_const_iterator::", "std::__detail::_Node_iterator_base::"):
            I.models[c + "operator!="] = compare(True)
            I.models[c + "operator=="] = compare(False)
        for c in ("std::__detail::_Node_const_iterator", "std::__detail::_Node_iterator", "std::_Rb_tree_const_iterator", "std::_Rb_tree_iterator"):
            I.models[c + "::ctor"] = lambda I, fr, fi, i, x, s, d, a: pv(s, a[0]) if a else INT0
            I.models[c + "::operator->"] = lambda I, fr, fi, i, x, s, d, o, a: ("ptrit", pv(s, ("L", I.deref_loc(o))))
            I.models[c + "::operator*"] = lambda I, fr, fi, i, x, s, d, o, a: ("L", ("d", ("ptrit", pv(s, ("L", I.deref_loc(o))))))

        def sink(I, fr, fi, i, x, s, d, o, a):
            v = [pv(s, y) for y in a]
            if x.get("fn") in self.sinks or d["n"].startswith("xmlTextWriterWriteRaw"):
                for y in v:
                    if contains(y, ("text", TOKEN)):
                        H.nsink += 1
                        if y != ("text", TOKEN) and not (y[0] in ("cstr",) and y[1] == ("text", TOKEN)): H.say(fr, "changed", x["l"], "a token is written with a text that is not its own")
                        s.ts[("out",)] = min(2, s.ts.get(("out",), 0) + 1)
                        break
                return ("void",)
            return NotImplemented
        for u in self.sinks: I.models[notmpl(P.decls[u]["qn"])] = sink
        for n in ("xmlTextWriterWriteRawLen", "xmlTextWriterWriteRaw"): I.models[n] = sink
