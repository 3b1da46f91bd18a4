"""C13: the metadata of units and archives is written under the name it is read back from, and from its own field."""
import re
from ..interp import *
from .. import facts
from ..par import pmap
from ..report import Report

NPOS = ("int", (1 << 64) - 1)
STR = ("std::basic_string", "std::__cxx11::basic_string")
OWN = ("language", "revision", "url", "filename", "version", "timestamp", "hash", "encoding")
# an attribute of a unit that is that of the archive, where there is one
OPTIONAL = {"url": "ARCHIVE"}


def fieldof(t):
    while t[0] in ("init", "L", "d", "addr", "opt", "some"): t = t[1]
    return t[2] if t[0] == "f" else None


def unroll(h, cap=16):
    """bounded loops over constant counters are followed iteration by iteration"""
    def edge(I, st, b, to, fr):
        st.ts["u"] = tuple(sorted((l[2], min(v[1], cap)) for l, v in st.mem.items() if l[0] == "v" and l[1] == fr.id and v[0] == "int" and 0 <= v[1])) + tuple(sorted((l[2], v[1]) for l, v in st.mem.items() if l[0] == "v" and v[0] == "str")) + tuple(sorted((l[2], v[1][2][1]) for l, v in st.mem.items() if l[0] == "v" and l[1] == fr.id and v[0] == "addr" and v[1][0] == "ix" and v[1][2][0] == "int"))
    h.edge = edge


def concrete(I):
    """strings of known contents are computed with"""
    def strings(I, fr, fi, i, x, s, d, o, a):
        t, b = (text(y) for y in (I.read(s, I.deref_loc(o)) if o is not None else INT0, I.read(s, a[0][1]) if a and a[0][0] == "L" else a[0] if a else INT0))
        if t[0] == "str":
            if d["n"] in ("operator+=", "append", "push_back") and (b[0] == "str" or b[0] == "int" and 0 < b[1] < 128) and len(a) == 1:
                s.write(I.deref_loc(o), ("str", t[1] + (b[1] if b[0] == "str" else chr(b[1]))))
                return o
            if d["n"] in ("find", "find_first_of") and (b[0] == "str" or b[0] == "int" and 0 < b[1] < 128) and len(a) < 3:
                n = t[1].find(b[1] if b[0] == "str" else chr(b[1]))
                return ("int", n) if n >= 0 else NPOS
            v = [I.read(s, y[1]) if y[0] == "L" else y for y in a]
            v = [NPOS if y[0] in ("v", "g", "init", "app") and "npos" in str(y) else y for y in v]
            if d["n"] in ("substr", "erase") and all(y[0] == "int" for y in v) and v:
                p, n = v[0][1], v[1][1] if len(v) > 1 else NPOS[1]
                if p > len(t[1]): return ("str", "")
                if d["n"] == "substr": return ("str", t[1][p:p + n])
                s.write(I.deref_loc(o), ("str", t[1][:p] + t[1][p + n:]))
                return o
            if d["n"] == "compare" and len(v) == 1 and b[0] == "str": return ("int", (t[1] > b[1]) - (t[1] < b[1]))
            if d["n"] in ("empty", "size", "length"): return ("int", int(not t[1]) if d["n"] == "empty" else len(t[1]))
        elif d["n"] in ("find", "find_first_of"): return NPOS
        elif d["n"] == "compare" and len(a) == 1: return app("!", app("==", t, b))
        return OLD[notmpl(d["cls"]) + "::*"](I, fr, fi, i, x, s, d, o, a)
    OLD = {}

    def made(old):
        def m(I, fr, fi, i, x, s, d, a):
            v = [I.read(s, y[1]) if y[0] == "L" else y for y in a]
            if len(v) in (2, 3) and v[0][0] == "str" and I.P.type(fi.ex[x["ops"][0]]["t"])["k"] == "rec":
                v = [NPOS if y[0] in ("v", "g", "init", "app") and "npos" in str(y) else y for y in v]
                if all(y[0] == "int" for y in v[1:]): return ("str", v[0][1][v[1][1]:][:v[2][1] if len(v) > 2 else None])
            return old(I, fr, fi, i, x, s, d, a)
        return m
    for c in STR:
        if c + "::*" in I.models:
            OLD[c + "::*"] = I.models[c + "::*"]
            I.models[c + "::*"] = strings
            OLD[c + "::ctor"] = I.models[c + "::ctor"]
            I.models[c + "::ctor"] = made(OLD[c + "::ctor"])

    def equal(sense):
        def m(I, fr, fi, i, x, s, d, o, a):
            u, v = (text(I.read(s, t[1]) if t[0] == "L" else t) for t in a[:2])
            t = ("int", int((u == v) == sense)) if u[0] == v[0] == "str" else app("==" if sense else "!=", u, v)
            return t
        return m
    for n in ("std::operator==", "std::operator!="): I.models[n] = equal(n.endswith("=="))


def arrays(I):
    """std::array of known contents: iterators are pointers to its elements, elements without a value are zero"""
    def ends(I, fr, fi, i, x, s, d, o, a):
        n = d["n"].lstrip("c")
        m = re.search(r",\s*(\d+)[UuLl]*\s*>$", d.get("cls", "") or "") or re.search(r"array<.*?,\s*(\d+)[UuLl]*\s*>", str(I.P.type(fi.ex[x["ops"][0]]["t"])) if x.get("ops") else "")
        if o is None or n not in ("begin", "end", "size", "operator[]", "at"): return NotImplemented
        arr = I.deref_loc(o)
        k = int(m.group(1)) if m else 0
        src = arr
        while s.mem.get(src, ("",))[0] == "copyof": src = s.mem[src][1]
        known = any(l[0] == "ix" and l[1] == src for l in s.mem)
        for j in range(k if known else 0):
            l = ("ix", src, ("int", j))
            if l not in s.mem and not any(contains(y, l) for y in s.mem): s.mem[l] = ("app", "ctor:std::pair", INT0, INT0)
        if n in ("operator[]", "at"): return ("L", ("ix", arr, I.read(s, a[0][1]) if a[0][0] == "L" else a[0]))
        if not k: return NotImplemented
        if n == "size": return ("int", k)
        if not known: return NotImplemented
        return ("addr", ("ix", src, ("int", 0 if n == "begin" else k)))
    I.models["std::array::*"] = ends


class Writes(Hooks):
    def call(self, I, st, qn, a, x, fr):
        if qn in ("xmlTextWriterWriteAttribute", "xmlTextWriterWriteAttributeNS") and len(a) > 2:
            w = (a[1], a[2])
            if w not in st.ts.get("w", ()): st.ts["w"] = st.ts.get("w", ()) + (w,)
        elif qn in ("xmlTextWriterStartElement", "xmlTextWriterStartElementNS", "xmlTextWriterEndElement"): st.ts["el"] = st.ts.get("el", ())[-7:] + (qn[13:16],)


def text(t):
    while t[0] in ("cstr",) or t[0] == "app" and t[1] == "cast": t = t[1] if t[0] == "cstr" else t[2]
    if t[0] == "strof": return t[1]
    return t


def startunits(P): return [f for f in P.fns("srcMLOutput::startUnit") if "blocks" in f]


def runstart(P, f, null=None, options=0, extra=0, empty=None, depth=None, extraname=("sym", "extra name")):
    """what startUnit writes, with all parameters given but one"""
    h = Writes()
    unroll(h)
    I = Interp(P, hooks=h, budget=300000)
    I.opaque |= {"srcMLOutput::outputNamespaces", "srcMLOutput::outputMacroList"}
    arrays(I)
    concrete(I)
    vec = [p for p in f["params"] if P.type(p["t"])["k"] == "ref"]
    ptrs = [p for p in f["params"] if P.type(p["t"])["k"] == "ptr"]

    def setup(I, st, fr):
        for p in ptrs:
            if p["n"] != null:
                st.facts[("p", p["v"])] = (NEG, POS, frozenset({0}))
                st.mem[("d", ("p", p["v"]))] = st.mem[("ix", ("d", ("p", p["v"])), INT0)] = ("int", 0 if p["n"] == empty else 65)
        this = ("d", ("p", "this"))
        st.mem[("f", this, "options")] = ("int", options)
        if depth is not None: st.mem[("f", this, "depth")] = ("int", depth)
        for p in vec:
            loc = ("d", ("p", p["v"]))
            st.mem[loc] = ("app", "cleared") if not extra else ("app", "mut:resize", ("app", "cleared"), ("int", 2))
            if extra:
                st.mem[("ix", loc, INT0)] = extraname
                st.mem[("ix", loc, ("int", 1))] = ("sym", "extra value")
    args = {i: INT0 for i, p in enumerate(f["params"]) if p["n"] == null}
    return [o for o in I.analyze(f, setup=setup, args=args) if o.kind == "ret"], ptrs


def table(P):
    """attribute name -> parameter of startUnit"""
    names = {}
    for f in startunits(P):
        outs, ptrs = runstart(P, f)
        for o in outs:
            for n, v in o.st.ts.get("w", ()):
                n, v = text(n), text(v)
                for i, p in enumerate(f["params"]):
                    if n[0] == "str" and v == ("p", p["v"]): names.setdefault(n[1], set()).add((i, p["n"]))
    return names


def bits(P):
    out = {}
    for u, v in P.vars.items():
        n = v["n"] if isinstance(v, dict) else None
        if n and n.startswith("SRCML_OPTION_"): out[n] = v
    return out


def option(P, name):
    for e in P.enums.values() if hasattr(P.enums, "values") else P.enums:
        pass
    v = None
    for u, d in P.vars.items():
        if d.get("n") == name or d.get("qn") == name: v = d
    if v is None: return None
    t = Interp(P).tree_const(v["init"]) if isinstance(v.get("init"), (dict, list)) else None
    return t[1] if t and t[0] == "int" else None


def writer(P, _):
    viol, done = {}, {}
    def bad(k, f, t): viol[k] = (f["file"], f["line"], "startUnit " + t)
    store, pos = option(P, "SRCML_OPTION_STORE_ENCODING"), option(P, "SRCML_OPTION_POSITION")
    for f in startunits(P):
        base, ptrs = runstart(P, f)
        full = {}
        for o in base:
            w = o.st.ts.get("w", ())
            seen = [text(n) for n, v in w]
            done["paths that write the attributes of a unit"] = done.get("paths that write the attributes of a unit", 0) + 1
            for n in seen:
                if n[0] == "str" and seen.count(n) > 1: bad("twice " + n[1], f, "writes the attribute %s twice" % n[1])
            for n, v in w:
                n, v = text(n), text(v)
                if n[0] != "str": continue
                ps = [p["n"] for p in ptrs if v == ("p", p["v"])]
                if ps: full.setdefault(ps[0], set()).add(n[1])
        for p in ptrs:
            if p["n"] == "encoding": continue
            got = full.get(p["n"], set())
            if len(got) != 1: bad("attribute " + p["n"], f, "writes %s under %s" % (p["n"], " and ".join(sorted(got)) or "no name"))
            done["attributes"] = done.get("attributes", 0) + 1
            for o in base:
                if not any(text(v) == ("p", p["v"]) for n, v in o.st.ts.get("w", ())): bad("missing " + p["n"], f, "does not always write %s" % p["n"])
            outs, _ = runstart(P, f, empty=p["n"])
            for o in outs:
                if not any(text(v) == ("p", p["v"]) for n, v in o.st.ts.get("w", ())): bad("empty " + p["n"], f, "does not write %s where it is empty" % p["n"])
            outs, _ = runstart(P, f, null=p["n"])
            for o in outs:
                for n, v in o.st.ts.get("w", ()):
                    n, v = text(n), text(v)
                    if n[0] == "str" and n[1] in got: bad("null " + p["n"], f, "writes %s where there is none" % n[1])
                miss = [q["n"] for q in ptrs if q["n"] not in (p["n"], "encoding") and not any(text(v) == ("p", q["v"]) for n, v in o.st.ts.get("w", ()))]
                for q in miss: bad("null %s drops %s" % (p["n"], q), f, "does not write %s where there is no %s" % (q, p["n"]))
        outs, _ = runstart(P, f, extra=1)
        for o in outs:
            w = [(text(n), text(v)) for n, v in o.st.ts.get("w", ())]
            k = [x for x in w if x[0] == ("sym", "extra name")]
            done["other attributes"] = done.get("other attributes", 0) + 1
            if not k: bad("extra", f, "does not write the other attributes of a unit")
            elif k[0][1] != ("sym", "extra value"): bad("extra value", f, "writes another value than its own for an attribute")
        if store:
            # the reader keeps the source encoding among the other attributes
            for null in (None, "encoding"):
                for bit in (store, 0):
                    outs, _ = runstart(P, f, null=null, options=bit, extra=1, extraname=("str", "src-encoding"))
                    for o in outs:
                        hit = [text(v) for n, v in o.st.ts.get("w", ()) if text(n) == ("str", "src-encoding")]
                        done["stored encodings kept from the input"] = done.get("stored encodings kept from the input", 0) + 1
                        if len(hit) > 1: bad("encoding twice", f, "writes the source encoding twice for a unit that was read with one")
                        elif not hit: bad("encoding lost", f, "does not write the source encoding of a unit that was read with one")
                        elif hit[0] == ("str", "UTF-8") and null: bad("encoding forgotten", f, "writes the default for the source encoding of a unit that was read with another")
            for null in (None, "encoding"):
                outs, _ = runstart(P, f, null=null, options=store)
                e = [p for p in ptrs if p["n"] == "encoding"]
                for o in outs:
                    w = [(text(n), text(v)) for n, v in o.st.ts.get("w", ())]
                    want = [("p", e[0]["v"])] if e and null is None else [("str", "UTF-8")]
                    if null is None and e: want.append(("str", "UTF-8"))
                    hit = [v for n, v in w if n[0] == "str" and n[1] == "src-encoding"]
                    if not hit: bad("encoding", f, "does not store the source encoding where it is to")
                    elif hit[0] not in want and hit[0][0] in ("p", "str"): bad("encoding value", f, "stores another encoding than that of the source")
                    done["stored encodings"] = done.get("stored encodings", 0) + 1
        # the size of tabs where positions are asked for
        for bit in (pos, 0):
            outs, _ = runstart(P, f, options=bit or 0)
            for o in outs:
                tabs = [(n, v) for n, v in o.st.ts.get("w", ()) if any(y == ("str", "tabs") or y == ("str", ":tabs") for y in subterms(n))]
                done["sizes of tabs"] = done.get("sizes of tabs", 0) + 1
                if bit and not tabs: bad("tabs", f, "does not write the size of tabs with the positions")
                elif bit and not any(isinstance(y, tuple) and y and y[0] == "f" and "tab" in str(y[2]) for y in subterms(tabs[0][1])) and tabs[0][1][0] not in ("top", "loop"): bad("tabs value", f, "writes another size of tabs than it counts with")
                elif not bit and tabs: bad("tabs off", f, "writes the size of tabs without positions")
        # the options, by name, at the root
        for lit, bit in sorted(names(P).items()):
            for depth in (0, 1):
                outs, _ = runstart(P, f, options=bit, depth=depth)
                for o in outs:
                    w = [v for n, v in o.st.ts.get("w", ()) if text(n) == ("str", "options")]
                    done["options written"] = done.get("options written", 0) + 1
                    if depth and w: bad("options nested", f, "writes the options for a unit inside of the root")
                    elif not depth and not w: bad("options " + lit, f, "does not write the option %s" % lit)
                    elif not depth:
                        got = {y[1] for y in subterms(w[0]) if isinstance(y, tuple) and y and y[0] == "str" and y[1].strip(",")}
                        if got and got != {lit}: bad("options value " + lit, f, "writes the option %s as %s" % (lit, "/".join(sorted(got))))
        outs, _ = runstart(P, f)
        for o in outs:
            if any(text(n) == ("str", "options") for n, v in o.st.ts.get("w", ())): bad("options off", f, "writes options where there are none")
            if any(text(n) == ("str", "src-encoding") for n, v in o.st.ts.get("w", ())): bad("encoding off", f, "stores the source encoding where it is not to")
    for f in P.fns("srcMLOutput::outputMacroList"):
        h = Writes()
        unroll(h)
        I = Interp(P, hooks=h, budget=100000)
        loc = ("f", ("d", ("p", "this")), "user_macro_list")
        def setup(I, st, fr):
            st.mem[loc] = ("app", "mut:resize", ("app", "cleared"), ("int", 2))
            st.mem[("ix", loc, INT0)] = ("sym", "token")
            st.mem[("ix", loc, ("int", 1))] = ("sym", "type")
        for o in I.analyze(f, setup=setup):
            if o.kind != "ret": continue
            done["macro lists written"] = done.get("macro lists written", 0) + 1
            w = {text(n)[1]: text(v) for n, v in o.st.ts.get("w", ()) if text(n)[0] == "str"}
            for n in ("token", "type"):
                if w.get(n, ("sym", n)) != ("sym", n) or n not in w: viol["macro " + n] = (f["file"], f["line"], "outputMacroList writes %s as the %s of a macro" % (show(w[n]) if n in w else "nothing", n))
    return viol, done


def read(P, f, name, kind, existing=None, value=None):
    """the fields that reading one attribute sets"""
    par = {p["n"]: ("p", p["v"]) for p in f["params"]}
    arr = [p for p in f["params"] if P.type(p["t"])["k"] == "ptr" and P.type(P.type(p["t"])["p"])["k"] == "ptr"][-1]
    ints = [i for i, p in enumerate(f["params"]) if P.type(p["t"])["k"] == "int"]
    A = ("d", ("p", arr["v"]))
    own = ("d", ("p", f["params"][0]["v"])) if kind == "unit" else ("d", ("init", ("f", ("d", ("p", "this")), "archive")))
    writes = {}

    class H(Hooks):
        def write(self, I, st, loc, val, x, fr):
            if loc[0] == "f" and loc[1] == own or loc[0] == "ix" and loc[1][0] == "f" and loc[1][1] == own: writes.setdefault(loc[2] if loc[0] == "f" else loc[1][2] + "[]", []).append(I.read(st, loc) if 0 else val)
    h = H()
    unroll(h, 4)
    I = Interp(P, hooks=h, budget=300000)
    I.opaque |= {"srcml_archive_register_namespace", "srcml_uri_normalize"}
    concrete(I)
    begin = ("sym", "begin")

    def setup(I, st, fr):
        st.mem[A] = st.mem[("ix", A, INT0)] = ("str", name)
        st.mem[("ix", A, ("int", 3))] = begin if value is None else ("str", value)
        st.mem[("ix", A, ("int", 4))] = ("sym", "end")
        st.mem[("f", own, "attributes")] = ("app", "cleared")
        if existing is not None:
            loc = ("f", own, "attributes")
            st.mem[loc] = ("app", "mut:resize", ("app", "cleared"), ("int", 2))
            st.mem[("ix", loc, INT0)] = ("str", existing)
        if kind != "unit": st.facts[own[1]] = (NEG, POS, frozenset({0}))
        else: st.facts[own[1]] = (NEG, POS, frozenset({0}))
    # the first counter is that of the namespaces, the last that of the attributes
    args = {i: INT0 for i in ints}
    args[ints[-1]] = ("int", 1)
    outs = [o for o in I.analyze(f, setup=setup, args=args) if o.kind == "ret"]
    return outs, writes, own


def readers(P):
    out = [(f, "unit") for f in P.fns("unit_update_attributes")]
    for f in P.funcs.values():
        if notmpl(f["qn"]) == "srcml_reader_handler::startRoot": out.append((f, "archive"))
    return out


def own(st, t): return t


def reading(P, job):
    usr, kind, name = job
    f = P.funcs[usr]
    viol, done, res = {}, {}, set()
    def bad(k, t): viol["%s %s %s" % (kind, name, k)] = (f["file"], f["line"], "reading the attribute %s of %s %s" % (name, "a unit" if kind == "unit" else "an archive", t))
    outs, writes, obj = read(P, f, name, kind)
    for o in outs:
        done["attributes read"] = done.get("attributes read", 0) + 1
    fields = {k: v for k, v in writes.items()}
    for k, vs in fields.items():
        v = vs[-1]
        if ("sym", "begin") in subterms(v) or v[0] == "strof" and v[1] == ("sym", "begin"): res.add(k)
        elif v[0] in ("top", "loop", "call"): res.add(k)
    if name == "zzz":
        for o in outs:
            v = I_read(o, obj, "attributes")
            if not (v[0] == "app" and v[1].startswith("mut:") and v[2][0] == "app" and v[2][1].startswith("mut:")) and v[0] not in ("top", "loop"): bad("kept", "does not keep its name and value")
            elif v[0] == "app" and (text(v[2][3]) != ("str", name) if len(v[2]) > 3 else False): bad("kept name", "does not keep its name before its value")
            elif v[0] == "app" and len(v) > 3 and ("sym", "begin") not in subterms(v[3]): bad("kept value", "does not keep its value")
        if kind == "unit":
            outs, writes, obj = read(P, f, name, kind, existing=name)
            for o in outs:
                v = I_read(o, obj, "attributes")
                if v[0] == "app" and v[1] != "mut:resize": bad("again", "adds it a second time instead of giving it its new value")
                w = o.st.mem.get(("ix", ("f", obj, "attributes"), ("int", 1)))
                if w is None or ("sym", "begin") not in subterms(w) and w[0] not in ("top", "loop"): bad("again value", "does not give it its new value")
                done["attributes read again"] = done.get("attributes read again", 0) + 1
    return viol, done, ("read", kind, name, tuple(sorted(res)))


def I_read(o, obj, n): return o.st.mem.get(("f", obj, n), ("init", ("f", obj, n)))


def leaves(t):
    """the fields a value comes from: (object kind, field)"""
    out = set()
    for y in subterms(t):
        if isinstance(y, tuple) and y and y[0] == "f" and isinstance(y[2], str):
            p = y[1]
            out.add((fieldof(("init", p[1])) if p[0] == "d" and p[1][0] == "init" else p[1][1].split("#")[0] if p[0] == "d" and p[1][0] == "p" else "?", y[2]))
    return out


def sites(P, job):
    """what is given to startUnit and to the translator for each attribute"""
    usr, = job
    f = P.funcs[usr]
    viol, done, got = {}, {}, {}

    class H(Hooks):
        def call(self, I, st, qn, a, x, fr):
            if fr.parent is not None and False: return
            if qn == "srcMLOutput::startUnit":
                st.ts["s"] = 1
                got.setdefault(("start", x.get("l")), []).append((tuple(a[1:]), st.copy()))
            elif qn == "srcml_translator::srcml_translator": got.setdefault(("make", x.get("l")), []).append((tuple(a), st.copy()))
        def constructed(self, I, st, qn, a, x, fr):
            if qn == "srcml_translator::srcml_translator": got.setdefault(("make", x.get("l")), []).append((tuple(a), st.copy()))
    I = Interp(P, hooks=H(), budget=600000, max_depth=3)
    I.opaque |= {q for q in ("srcMLOutput::startUnit", "srcml_translator::srcml_translator", "extract_revision", "srcml_translator::prepareOutput", "srcml_translator::close")}
    try: outs = I.analyze(f)
    except BudgetExceeded: outs = []
    starts = startunits(P)
    for (k, l), rows in got.items():
        target = starts[0] if k == "start" else [c for c in P.fns("srcml_translator::srcml_translator") if "blocks" in c][0]
        for args, st in rows:
            args = args[-len(target["params"]):]
            unit = [("d", ("p", p["v"])) for p in f["params"] if "srcml_unit" in str(P.type(P.type(p["t"]).get("p", p["t"])).get("r", ""))]
            for p, a in zip(target["params"], args):
                pt = P.type(p["t"])
                if pt["k"] == "ref" and p["n"] == "attributes":
                    done["lists of other attributes passed on"] = done.get("lists of other attributes passed on", 0) + 1
                    while a[0] == "L" and a[1][0] == "d" and a[1][1][0] == "init" and a[1][1][1][0] == "f": a = ("L", a[1][1][1])
                    if a[0] != "L" or a[1][0] != "f":
                        if a[0] == "L" and a[1][0] not in ("d",) or a == ("app", "cleared"): viol["%s %s list" % (f["qn"], k)] = (f["file"], l or f["line"], "%s does not pass on the other attributes" % f["qn"])
                    elif a[1][2] != "attributes" or unit and a[1][1] != unit[0]: viol["%s %s list" % (f["qn"], k)] = (f["file"], l or f["line"], "%s passes on %s as the other attributes%s" % (f["qn"], show(a[1]), " of the unit" if unit else ""))
                if k == "start" and p is target["params"][-1] and a[0] == "int" and bool(a[1]) == bool(unit): viol["%s macros" % f["qn"]] = (f["file"], l or f["line"], "%s %s" % (f["qn"], "writes the macro list of the archive in a unit" if a[1] else "does not write the macro list at the root"))
                if p["n"] == "tabsize" and "tabstop" not in show(a) and a[0] not in ("top", "loop", "p"): viol["%s tabs" % f["qn"]] = (f["file"], l or f["line"], "%s does not pass the size of tabs on" % f["qn"])
                if p["n"] not in OWN: continue
                if a[0] == "L": a = I.read(st, a[1])
                done["attributes passed on"] = done.get("attributes passed on", 0) + 1
                if P.type(p["t"])["k"] == "int": continue
                if a == INT0 or a[0] == "null":
                    continue
                ls = {(o, n) for o, n in leaves(a) if n in OWN or n in ("src_encoding", "xml_encoding")}
                if p["n"] == "language" and not ls: continue
                wrong = {n for o, n in ls if n != p["n"] and not (p["n"] == "encoding" and n == "src_encoding")}
                if wrong: viol["%s %s %s" % (f["qn"], k, p["n"])] = (f["file"], l or f["line"], "%s passes the %s on as the %s" % (f["qn"], "/".join(sorted(wrong)), p["n"]))
        if k == "start":
            # what a unit has is passed on, on every path
            unit = [("d", ("p", p["v"])) for p in f["params"] if "srcml_unit" in str(P.type(P.type(p["t"]).get("p", p["t"])).get("r", ""))]
            for args, st in rows:
                args = args[-len(target["params"]):]
                for p, a in zip(target["params"], args):
                    if p["n"] not in OWN or not unit or p["n"] in ("language", "revision"): continue
                    if a[0] == "L": a = I.read(st, a[1])
                    if a != INT0 and a[0] != "null": continue
                    has = ("f", unit[0], p["n"])
                    t = None
                    for g in st.facts:
                        if isinstance(g, tuple) and has in subterms(g) and not any(isinstance(y, tuple) and y and y[0] == "cstr" for y in subterms(g)):
                            t = st.truth(g) if g[0] != "app" or g[1] != "!" else None
                            if g[0] == "app" and g[1] == "!" and st.truth(g) is not None: t = 1 - st.truth(g)
                    if p["n"] in OPTIONAL and any(isinstance(g, tuple) and "options" in show(g) and st.truth(g) not in (0, None) for g in st.facts): continue
                    if t != 0: viol["%s omit %s" % (f["qn"], p["n"])] = (f["file"], l or f["line"], "%s does not write the %s of a unit that has one" % (f["qn"], p["n"]))
    if any(k == "make" for k, l in got):
        near = {f["usr"]} | {u for u, g in P.funcs.items() for x in g.get("exprs", {}).values() if x.get("fn") == f["usr"]} | {x["fn"] for x in f["exprs"].values() if x.get("fn") in P.funcs}
        done["macro lists given to a translator"] = 1
        if not any(notmpl(P.decls[x["fn"]]["qn"]) == "srcml_translator::set_macro_list" for u in near for x in P.funcs[u]["exprs"].values() if x.get("fn") in P.decls): viol["%s macro list" % f["qn"]] = (f["file"], f["line"], "%s does not give the macro list to the translator it makes" % f["qn"])
    return viol, done


def members(P, _):
    """the translator keeps each argument in the member it passes on as that attribute"""
    viol, done = {}, {}
    this = ("d", ("p", "this"))
    for c in P.fns("srcml_translator::srcml_translator"):
        if "blocks" not in c: continue
        I = Interp(P, hooks=Hooks(), budget=100000)
        I.opaque |= {"srcMLOutput::srcMLOutput", "srcMLOutput::initNamespaces", "Language::Language"}
        made = []
        def out(I, fr, fi, i, x, s, d, a):
            made.append((fi.P.decls[x["ctor"]] if hasattr(fi, "P") else d, [I.read(s, y[1]) if y[0] == "L" else y for y in a], x.get("l")))
            return ("app", "out")
        I.models["srcMLOutput::ctor"] = out
        for o in I.analyze(c):
            if o.kind != "ret": continue
            for d, a, l in made:
                g = [w for w in P.fns("srcMLOutput::srcMLOutput") if len(w["params"]) == len(a) and "blocks" in w]
                keeps = {I.read(o2.st, ("f", this, "tabsize")) for w in g for o2 in Interp(P, budget=20000).analyze(w) if o2.kind == "ret"}
                for q, v in zip(g[0]["params"] if g else (), a):
                    for p in c["params"]:
                        if ("p", q["v"]) in keeps and p["n"] == "tabsize":
                            done["values for the writer"] = done.get("values for the writer", 0) + 1
                            if v[0] in ("int", "p") and v != ("p", p["v"]): viol["writer " + p["n"]] = (c["file"], l or c["line"], "the translator does not give its %s to the writer" % p["n"])
            for p in c["params"]:
                if p["n"] not in OWN or P.type(p["t"])["k"] != "ptr": continue
                v = I.read(o.st, ("f", this, p["n"]))
                done["members of the translator"] = done.get("members of the translator", 0) + 1
                if v[0] == "p" and v != ("p", p["v"]): viol["member " + p["n"]] = (c["file"], c["line"], "the translator keeps %s as its %s" % (show(v), p["n"]))
    return viol, done


def names(P):
    """the options that the writer knows by name"""
    pairs, files = {}, {f["file"] for f in startunits(P)}
    for f in P.funcs.values():
        if f.get("file") not in files: continue
        for i, x in f["exprs"].items():
            ops = x.get("ops", [])
            if len(ops) < 2 or x["k"] not in ("InitListExpr", "CXXConstructExpr", "CallExpr"): continue
            a, b = const(f, ops[0]), literal(f, ops[1])
            if a and b and b.replace("_", "").replace("0", "").isupper(): pairs[b] = a

    def leaf(n, k):
        if k in n: return n[k]
        return leaf(n["ops"][0], k) if len(n.get("ops", ())) == 1 else None

    def walk(n):
        ops = n.get("ops", ())
        if len(ops) == 2:
            a, b = leaf(ops[0], "cv"), leaf(ops[1], "sv")
            if isinstance(a, int) and a and isinstance(b, str) and b.replace("_", "").replace("0", "").isupper(): pairs[b] = a
        for o in ops: walk(o)
    for u, v in P.vars.items():
        if isinstance(v.get("init"), dict) and v.get("file", "") in files: walk(v["init"])
    return pairs


def options(P, _):
    """the names of options mean the same bit when written and when read"""
    viol, done = {}, {}
    pairs = names(P)
    alln = sorted(pairs)
    for f, kind in readers(P):
        if kind != "archive": continue
        for lits in [[n] for n in alln] + ([alln, alln[::-1]] if len(alln) > 1 else []):
            value, bits = ",".join(lits), 0
            for n in lits: bits |= pairs[n]
            outs, writes, obj = read(P, f, "options", kind, value=value)
            done["option names"] = done.get("option names", 0) + 1
            def bad(k, t): viol["option %s %s" % (k, value)] = (f["file"], f["line"], "reading the options %s %s" % (value, t))
            results = set()
            for o in outs:
                v = I_read(o, obj, "options")
                if any(isinstance(y, tuple) and y and y[0] in ("top", "loop", "call") for y in subterms(v)):
                    results.add("ok")
                    continue
                m, neg, w = 0, 0, v
                while w[0] == "app" and w[1] in ("|", "&") and len(w) == 4:
                    k = [z for z in w[2:] if z[0] == "int"]
                    if len(k) != 1: break
                    if w[1] == "|": m |= k[0][1] & ~neg
                    else: neg |= ~k[0][1]
                    w = [z for z in w[2:] if z != k[0]][0]
                if w[0] == "int" or w[0] not in ("init", "app"): bad("forgets", "forgets the options set before")
                elif w[0] == "app" or m == bits: results.add("ok")
                elif m & bits != bits: results.add("unset")
                elif m & ~bits: results.add("other")
            # a path that cannot be told from the right one may go wrong, but one has to be right
            if results and "ok" not in results: bad("unset", "does not set all of them" if "unset" in results else "sets other options, too")
    return viol, done, ("options", tuple(sorted(pairs.items())))


def const(f, i, n=0):
    x = f["exprs"].get(str(i))
    if x is None or n > 5: return None
    if "cv" in x: return x["cv"]
    if x["k"] in ("ImplicitCastExpr", "MaterializeTemporaryExpr", "CXXFunctionalCastExpr", "ParenExpr", "CXXBindTemporaryExpr") and x.get("ops"): return const(f, x["ops"][0], n + 1)
    return None


def literal(f, i, n=0):
    x = f["exprs"].get(str(i))
    if x is None or n > 5: return None
    if "sv" in x: return x["sv"]
    if x.get("ops") and len(x["ops"]) == 1: return literal(f, x["ops"][0], n + 1)
    return None


def dangling(P, _):
    """the text of a temporary string is used after the end of the full expression it lives in"""
    viol, done = {}, {}
    for f in P.funcs.values():
        ex, par = f.get("exprs", {}), {}
        if "/src/" not in f.get("file", ""): continue
        hits = []
        for i, x in ex.items():
            d = P.decls.get(x.get("fn") or "")
            if not d or d.get("n") not in ("c_str", "data") or not x.get("ops"): continue
            o = ex.get(str(x["ops"][0]))
            while o is not None and o["k"] in ("MemberExpr", "ImplicitCastExpr", "ParenExpr", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr") and o.get("ops"): o = ex.get(str(o["ops"][0]))
            done["texts of strings"] = done.get("texts of strings", 0) + 1
            if o is None or o.get("lv") or "t" not in o or P.type(o["t"])["k"] != "rec" or not o["k"].endswith(("CallExpr", "ObjectExpr", "ConstructExpr")): continue
            hits.append((i, x))
        if not hits: continue
        for i, x in ex.items():
            for o in x.get("ops", ()):
                if x["k"] != "MemberExpr" and str(o) != i: par.setdefault(str(o), []).append(i)
        decls = {}
        for b in f.get("blocks", ()):
            for e in b.get("el", ()):
                for v in e.get("vars", ()): decls[str(v.get("init"))] = v
                if e["k"] == "R" and e.get("id") is not None: decls[str(e["id"])] = e
        for i, x in hits:
            todo, seen, bad = [i], set(), False
            while todo:
                j = todo.pop()
                if j in seen: continue
                seen.add(j)
                ups = par.get(j, [])
                if not ups and j != i and ex[j]["k"] == "InitListExpr": bad = True
                if j in decls and P.type(ex[j]["t"])["k"] == "ptr": bad = True
                for u in ups:
                    k = ex[u]["k"]
                    if k in ("ConditionalOperator", "BinaryConditionalOperator", "ParenExpr", "InitListExpr") or k.endswith("CastExpr"): todo.append(u)
                    elif k == "BinaryOperator" and ex[u].get("op") == "=" and str(ex[u]["ops"][-1]) == j: bad = True
            if bad: viol["dangling %s" % f["qn"].split("(")[0]] = (f["file"], x.get("l") or f["line"], "%s keeps the text of a temporary string, which is gone when it is used" % f["qn"].split("(")[0])
    return viol, done


def metatag(P, _):
    viol, done = {}, {}
    for f in P.funcs.values():
        if notmpl(f["qn"]) != "srcml_reader_handler::metaTag": continue
        arr = ("d", ("p", f["params"][-1]["v"]))
        num = len(f["params"]) - 2
        ar = ("d", ("init", ("f", ("d", ("p", "this")), "archive")))
        loc = ("f", ar, "user_macro_list")
        for order in (("token", "type"), ("type", "token")):
            h = Hooks()
            unroll(h, 4)
            I = Interp(P, hooks=h, budget=300000)
            OLD = {}
            def strings(I, fr, fi, i, x, s, d, o, a):
                if d["n"] == "find": return NPOS
                return OLD[notmpl(d["cls"]) + "::*"](I, fr, fi, i, x, s, d, o, a)
            for c in STR:
                if c + "::*" in I.models:
                    OLD[c + "::*"] = I.models[c + "::*"]
                    I.models[c + "::*"] = strings
            def strcmp(I, fr, fi, i, x, s, d, o, a):
                v = [I.read(s, y[1]) if y[0] == "L" else y for y in a]
                if v[0][0] == v[1][0] == "str": return ("int", int(v[0] != v[1]))
                return NotImplemented
            old = I.models.get("strcmp")
            I.models["strcmp"] = lambda *z: (lambda r: r if r is not NotImplemented or old is None else old(*z))(strcmp(*z))
            def setup(I, st, fr):
                st.mem[loc] = ("app", "cleared")
                for k, n in enumerate(order):
                    st.mem[("ix", arr, ("int", 5 * k))] = ("str", n)
                    st.mem[("ix", arr, ("int", 5 * k + 3))] = ("sym", n)
                    st.mem[("ix", arr, ("int", 5 * k + 4))] = ("sym", n + " end")
                st.mem[arr] = ("str", order[0])
            pushed = set()
            for o in I.analyze(f, setup=setup, args={0: ("str", "macro-list"), num: ("int", 2)}):
                if o.kind == "ret": pushed.add(o.st.mem.get(loc) != ("app", "cleared"))
                v = o.st.mem.get(loc)
                if o.kind != "ret" or v is None or v == ("app", "cleared"): continue
                done["macro lists read"] = done.get("macro lists read", 0) + 1
                seq = []
                while v[0] == "app" and v[1].startswith("mut:") and len(v) > 3:
                    seq.append(v[3])
                    v = v[2]
                want = ["type", "token"]
                for s, w in zip(seq, want):
                    names = {y[1] for y in subterms(s) if isinstance(y, tuple) and y and y[0] == "sym"} | ({s[1][1]} if s[0] == "strof" and s[1][0] == "sym" else set())
                    names = {n for n in names if n in want}
                    if names and names != {w}: viol["macro read " + w] = (f["file"], f["line"], "reading a macro list takes its %s for its %s" % ("/".join(names), w))
            if pushed and True not in pushed: viol["macro unread"] = (f["file"], f["line"], "a macro list is not read back")
    return viol, done


def run_check():
    P = facts.load(("libsrcml", "parser"))
    R = Report("C13", "The writer of start tags is interpreted with symbolic metadata: each attribute is written once, under one name, from its own parameter, exactly where it is set. The readers are interpreted "
               "for every attribute name written: the value read goes to the field that the writer takes it from, and to no other. Every call passes each field on as the attribute of its name. Names of options mean the "
               "same bit on both sides, the attributes of macro lists the same part; other attributes are kept in order.")
    T = table(P)
    jobs = [(writer, 0), (members, 0), (options, 0), (metatag, 0), (dangling, 0)]
    for f, kind in readers(P):
        for n in sorted(set(T) | {"zzz", "options", "tabs"}): jobs.append((reading, (f["usr"], kind, n)))
    calls = set()
    for f in P.funcs.values():
        for x in f.get("exprs", {}).values():
            d = P.decls.get(x.get("fn") or x.get("ctor") or "")
            if d and notmpl(d["qn"]) in ("srcMLOutput::startUnit", "srcml_translator::srcml_translator") and "srcMLOutput" not in notmpl(f["qn"]): calls.add(f["usr"])
    jobs += [(sites, (u,)) for u in sorted(calls)]
    total, reads = {}, {}

    def job(j):
        try: return j[0](P, j[1])
        except BudgetExceeded: return {}, {"parts too big to follow": 1}
    for r in pmap(job, jobs):
        viol, done = r[:2]
        if len(r) > 2 and r[2][0] == "read": reads[r[2][1:3]] = r[2][3]
        if len(r) > 2 and r[2][0] == "options": R.count("options by name", len(r[2][1]))
        for k, v in done.items(): total[k] = total.get(k, 0) + v
        for k, (file, l, t) in viol.items(): R.violation(k, "%s:%s" % (file.replace("/repo/", ""), l), t)
    for f, kind in readers(P):
        w = "%s:%s" % (f["file"].replace("/repo/", ""), f["line"])
        for n, ps in sorted(T.items()):
            own = {p for i, p in ps}
            if (kind, n) not in reads: continue
            got = set(reads[kind, n]) - {"attributes"}
            R.ok("%s %s -> %s" % (kind, n, ", ".join(sorted(got)) or "kept or ignored"))
            if kind == "unit" and n != "src-encoding":
                if not got: R.violation("unread %s %s" % (kind, n), w, "the attribute %s of %s is written from its %s, but not read back" % (n, kind, "/".join(own)))
            for g in got - own - {"src_encoding"}: R.violation("field %s %s" % (kind, n), w, "the attribute %s of %s is written from its %s, but read into its %s" % (n, kind, "/".join(own), g))
        if kind == "archive":
            if "tabstop" not in reads.get((kind, "tabs"), ("tabstop",)): R.violation("unread archive tabs", w, "the size of tabs of an archive is not read back")
            for n in ("url", "version", "revision"):
                if n in T and (kind, n) in reads and not set(reads[kind, n]) - {"attributes"}: R.violation("unread archive " + n, w, "the attribute %s of an archive is not read back" % n)
        for n in ("options", "tabs"):
            got = set(reads.get((kind, n), ())) - {"options", "tabstop"}
            if got: R.violation("taken %s %s" % (kind, n), w, "the attribute %s of %s is read into %s" % (n, kind, "/".join(sorted(got))))
    for k, v in sorted(total.items()):
        R.ok("%s: %d" % (k, v), v)
        R.count(k, v)
    R.require("attributes", total.get("attributes", 0), 7)
    R.require("attributes read", total.get("attributes read", 0), 14)
    R.require("attributes passed on", total.get("attributes passed on", 0), 20)
    R.require("macro lists read", total.get("macro lists read", 0), 1)
    return R.finish(P)
