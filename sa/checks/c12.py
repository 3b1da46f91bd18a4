"""C12: the language of a source is chosen by name, then archive, then extension."""
from ..interp import *
from .. import facts
from ..par import pmap
from ..report import Report
from .c13 import unroll

REG = "language_extension_registry"


def flat(x):
    yield x
    for o in x.get("ops", ()):
        if isinstance(o, dict): yield from flat(o)


def text(P, x):
    """the string an expression of an initializer names"""
    for y in flat(x):
        if "sv" in y: return y["sv"]
        v = y.get("v", "")
        if v.startswith("G:") and "init" in P.vars.get(v[2:], {}): return text(P, P.vars[v[2:]]["init"])
    return None


def number(x):
    for y in flat(x):
        if "cv" in y: return y["cv"]
    return None


def entries(P, end):
    """strings with numbers of a table of the program"""
    for u, v in P.vars.items():
        if u.endswith("@" + end) and v.get("init", {}).get("k") == "InitListExpr":
            return u, v, [(text(P, o), number(o)) for o in v["init"]["ops"]]
    return None, None, []


def tables(P, _):
    viol, done = {}, {}
    u, v, t = entries(P, "lang2int")
    at = (v["file"], v["line"]) if v else None
    for i, (s, n) in enumerate(t):
        done["names of languages"] = done.get("names of languages", 0) + 1
        if s is None or n is None: continue
        for s2, n2 in t[:i]:
            if s2 == s: viol["name %s" % s] = at + ("language name \"%s\" stands twice in the table of languages; the second one is never found" % s,)
            if n2 == n: viol["number %s" % s] = at + ("languages \"%s\" and \"%s\" have the same number %s: a unit of one is written as the other" % (s2, s, n),)
    for c, w in P.vars.items():
        if c.endswith("@lang2intcount") and v and number(w.get("init", {})) not in (None, len(t)):
            viol["count"] = (w["file"], w["line"], "the table of languages has %d entries, %d are looked at" % (len(t), number(w["init"])))
    u2, v2, t2 = entries(P, "langs")
    for s, _n in t2:
        done["languages listed"] = done.get("languages listed", 0) + 1
        if s is not None and t and s not in [a for a, b in t]: viol["listed %s" % s] = (v2["file"], v2["line"], "\"%s\" is listed as a language, and no language has this name" % s)
    # the extensions known at first and after registering the standard ones
    def pairs(f, pick):
        out = {}
        E = f["exprs"]
        def expr(i):
            e = E[str(i)] if str(i) in E else E.get(i, {})
            return dict(e, ops=[expr(o) for o in e.get("ops", ())])
        for i, e in sorted(E.items(), key=lambda k: (k[1].get("l", 0), int(k[0]))):
            if "fn" in e and pick(e):
                a = [expr(o) for o in e.get("ops", ())][-2:]
                if len(a) == 2 and text(P, a[0]) is not None and number(a[1]) is not None: out[text(P, a[0])] = (number(a[1]), e["l"])
        return out
    ctor = std = None
    for f in P.funcs.values():
        if f.get("cls") != REG or "blocks" not in f: continue
        if f["n"] == REG and not f["params"]: ctor = (f, pairs(f, lambda e: e["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and P.decls.get(e["fn"], {}).get("n") == "pair"))
        if f["n"] == "register_standard_file_extensions": std = (f, pairs(f, lambda e: P.decls.get(e["fn"], {}).get("n") == "register_user_ext"))
    if ctor and std and ctor[1] and std[1]:
        for e in sorted(set(ctor[1]) | set(std[1])):
            done["extensions"] = done.get("extensions", 0) + 1
            a, b = ctor[1].get(e), std[1].get(e)
            if not a: viol["ext %s" % e] = (std[0]["file"], std[0]["line"], "extension %s is registered with the standard ones, but unknown before" % e)
            elif not b: viol["ext %s" % e] = (ctor[0]["file"], ctor[0]["line"], "extension %s is known at first, but not among the standard ones" % e)
            elif a[0] != b[0]: viol["ext %s" % e] = (std[0]["file"], b[1], "extension %s has language %s at first and %s among the standard ones" % (e, a[0], b[0]))
            names = [n for s, n in t if n]
            for n, l in (a, b) if a and b else ():
                if t and n not in names: viol["ext lang %s" % e] = (ctor[0]["file"], l, "extension %s has language %s, which is none" % (e, n))
    return viol, done


def inside(v):
    yield v
    if isinstance(v, tuple):
        for w in v:
            if isinstance(w, tuple): yield from inside(w)


def entry(v, table, part):
    """index i for table[i].part"""
    while v[0] in ("init", "strof") or (v[0] == "app" and v[1] == "cast"): v = v[1] if v[0] != "app" else v[2]
    if v[0] == "f" and v[2] == part and v[1][0] == "ix" and table in str(v[1][1]) and v[1][2][0] == "int": return v[1][2][1]
    return None


def compared(st, table, part):
    """index -> what it was compared with, and whether equal"""
    out = {}
    for g, r in st.facts.items():
        if isinstance(g, tuple) and g[:2] in (("app", "=="), ("app", "strcmp")):
            for a, b in ((g[2], g[3]), (g[3], g[2])) if len(g) > 3 else ():
                i = entry(a, table, part)
                if i is not None:
                    lo, hi = r[:2]
                    if lo == hi: out[i] = (b, (lo != 0) == (g[1] == "=="))
    return out


def lookups(P, _):
    """name -> number in the table of languages"""
    viol, done = {}, {}
    u, v, t = entries(P, "lang2int")
    if not t: return viol, done
    for f in P.funcs.values():
        if f["n"] != "getLanguage" or f.get("cls") != "Language" or len(f["params"]) != 1 or "blocks" not in f: continue
        H = Hooks(); unroll(H)
        I = Interp(P, hooks=H, budget=20000, max_depth=3)

        def setup(I, st, fr):
            for c in P.vars:
                if c.endswith("@lang2intcount"): st.mem[("g", c)] = ("int", len(t))
        got = set()
        misses = 0
        for o in I.analyze(f, setup=setup):
            if o.kind != "ret": continue
            c = compared(o.st, "lang2int", "first")
            i = entry(o.val, "lang2int", "second")
            yes = [k for k in c if c[k][1]]
            if i is None and o.val == INT0 and not yes and c:
                done["ways to miss a name"] = done.get("ways to miss a name", 0) + 1
                miss = [t[k][0] for k in range(len(t)) if k not in c and t[k][1]]
                if miss: viol["miss"] = (f["file"], f["line"], "%s gives up on a name without comparing it with \"%s\"" % (f["qn"], '", "'.join(map(str, miss))))
            elif i is not None:
                done["names found"] = done.get("names found", 0) + 1
                got.add(i)
                if yes and yes != [i]: viol["other %s" % i] = (f["file"], f["line"], "%s finds name \"%s\" and answers with the number of \"%s\"" % (f["qn"], t[yes[0]][0], t[i][0]))
                elif not yes and i in c: viol["wrong %s" % i] = (f["file"], f["line"], "%s answers with the number of \"%s\" for a name that differs from it" % (f["qn"], t[i][0]))
            elif yes and o.val == INT0 and t[yes[0]][1]:
                viol["zero %s" % yes[0]] = (f["file"], f["line"], "%s answers \"no language\" for \"%s\"" % (f["qn"], t[yes[0]][0]))
    return viol, done


def extensions(P, _):
    """the last one registered counts"""
    viol, done = {}, {}
    N = 3
    how = {k for k in registering(P, 0)[1] if k.startswith("registered at")}
    last = 1 if how == {"registered at the back"} else -1 if how == {"registered at the front"} else 0
    for f in P.funcs.values():
        if f["n"] != "get_language_from_filename" or f.get("cls") != REG or "blocks" not in f: continue
        H = Hooks(); unroll(H)
        I = Interp(P, hooks=H, budget=40000, max_depth=3)
        old = I.models.get("std::vector::*")

        def vec(I, fr, fi, i, x, s, d, o, a):
            if d["n"] == "size": return ("int", N)
            return old(I, fr, fi, i, x, s, d, o, a) if old else NotImplemented
        I.models["std::vector::*"] = vec
        at = (f["file"], f["line"])
        for o in I.analyze(f):
            if o.kind != "ret": continue
            c = compared(o.st, "registered_languages", "first")
            if not c: continue
            yes = [k for k in c if c[k][1]]
            val = {}
            cpp = None
            for g, r in o.st.facts.items():
                k = entry(g, "registered_languages", "second") if isinstance(g, tuple) else None
                if k is not None: val[k] = r[:2]
                if isinstance(g, tuple) and "use_cpp_for_c" in str(g[-1:]): cpp = r
            if len(yes) > 1: continue
            done["ways to look up an extension"] = done.get("ways to look up an extension", 0) + 1
            # what is compared is what follows the last dot
            for k, (w, e) in c.items():
                cuts = [y for y in inside(w) if isinstance(y, tuple) and len(y) > 3 and y[0] == "app" and y[1] == "m:substr"]
                for y in cuts:
                    p = y[3]
                    finds = [z for z in inside(p) if isinstance(z, tuple) and len(z) > 2 and z[0] == "app" and str(z[1])[:2] in ("m:", "it") and "find" in str(z[1]) and any(y2 in (("str", "."), ("int", 46)) for y2 in inside(z))]
                    for z in finds:
                        if z[1].split(":")[1] not in ("find_last_of", "rfind", "find_end"): viol["dot"] = at + ("%s takes the extension from %s, not from the last dot" % (f["qn"], z[1].split(":")[1]),)
                    if finds and p[0] == "app" and p[1] == "m:find_last_of" or p[0] == "app" and p[1] == "m:rfind": viol["dot in"] = at + ("%s compares an extension that still has its dot" % f["qn"],)
            if yes:
                k = yes[0]
                skipped = [j for j in (range(k + 1, N) if last == 1 else range(k) if last else ()) if j not in c]
                if skipped: viol["order"] = at + ("%s takes an extension without looking at those registered later: a registration does not override earlier ones" % f["qn"],)
                i = entry(o.val, "registered_languages", "second")
                if i is not None and i != k: viol["entry"] = at + ("%s finds one extension and answers with the language of another" % f["qn"],)
                elif i is None and o.val[0] == "int":
                    n = o.val[1]
                    r = val.get(k)
                    if r is None or r[0] != r[1]:
                        if not any(isinstance(g, tuple) and entry(g, "registered_languages", "second") is None and any(isinstance(y, tuple) and entry(y, "registered_languages", "second") == k for y in inside(g)) for g in o.st.facts): viol["const %s" % n] = at + ("%s answers %s whatever language is registered for the extension" % (f["qn"], n),)
                    elif n == r[0]: pass
                    elif n == 2 and r[0] == 1:
                        if cpp is not None and not ok_true(cpp): viol["c as c++"] = at + ("%s treats C as C++ without being told to" % f["qn"],)
                    else: viol["const %s %s" % (n, r[0])] = at + ("%s answers %s for an extension registered with %s" % (f["qn"], n, r[0]),)
                elif i == k and val.get(k) and val[k] == (1, 1) and cpp is not None and ok_true(cpp): viol["c kept"] = at + ("%s leaves C as it is although it is to be treated as C++" % f["qn"],)
            elif o.val == INT0:
                missed = [j for j in range(N) if j not in c]
                if missed: viol["gives up"] = at + ("%s gives up on an extension without looking at all that are registered" % f["qn"],)
            elif entry(o.val, "registered_languages", "second") is not None and entry(o.val, "registered_languages", "second") in c:
                viol["differs"] = at + ("%s answers with the language of an extension that differs" % f["qn"],)
    return viol, done


def ok_true(r):
    """a range of a flag known to be set"""
    return not (r[0] == 0 and r[1] == 0) and (r[0] > 0 or (len(r) > 2 and 0 in r[2]) or r[1] < 0)


def registering(P, _):
    viol, done, how = {}, {}, set()
    for f in P.funcs.values():
        if f["n"] != "register_user_ext" or f.get("cls") != REG or "blocks" not in f or len(f["params"]) != 2: continue
        H = Hooks()

        def write(I, st, loc, v, x, fr):
            if "registered_languages" in str(loc) or loc[0] == "f" and loc[2] == "second": st.ts["n"] = 1
        H.write = write
        I = Interp(P, hooks=H, budget=20000, max_depth=2)
        old = I.models.get("std::vector::*")

        def vec(I, fr, fi, i, x, s, d, o, a):
            if d["n"] in ("push_back", "emplace_back", "insert", "emplace"): 
                s.ts["n"] = s.ts.get("n", 0) + 1
                how.add("back" if d["n"] in ("push_back", "emplace_back") or "end" in str(show(a[0])) else "front" if "begin" in str(show(a[0])) else "?")
            if d["n"] in ("clear", "pop_back", "erase"): s.ts["gone"] = d["n"]
            return old(I, fr, fi, i, x, s, d, o, a) if old else NotImplemented
        I.models["std::vector::*"] = vec
        at = (f["file"], f["line"])
        for o in I.analyze(f):
            if o.kind != "ret": continue
            done["ways to register an extension"] = done.get("ways to register an extension", 0) + 1
            n = o.st.ts.get("n", 0)
            if o.st.ts.get("gone"): viol["gone"] = at + ("%s takes away extensions that are registered" % f["qn"],)
            if o.val[0] == "int":
                if o.val[1] and not n: viol["not added"] = at + ("%s says the extension is registered, and does not add it" % f["qn"],)
                if not o.val[1] and n: viol["added"] = at + ("%s adds an extension and says it failed" % f["qn"],)
            if n > 1: viol["twice"] = at + ("%s adds more than one" % f["qn"],)
    if how == {"back", "front"}: viol["both ends"] = at + ("extensions are registered at both ends of the list",)
    done["registered at the %s" % "".join(sorted(how))] = 1
    return viol, done


def choice(P, _):
    viol, done = {}, {}
    GET, CHK = "get_language_from_filename", "srcml_check_language"
    for f in P.funcs.values():
        if "blocks" not in f: continue
        ns = {P.decls.get(x.get("fn") or "", {}).get("n") for x in f.get("exprs", {}).values()}
        if f["n"] != "srcml_unit_parse_internal": continue
        H = Hooks(); set_ = []

        def write(I, st, loc, v, x, fr):
            if loc[0] == "f" and loc[2] == "derived_language": set_.append((v, dict(st.facts), x.get("l", 0))); st.ts["set"] = 1
        H.write = write
        I = Interp(P, hooks=H, budget=20000, max_depth=2)
        near = set()
        for n in (CHK, GET):
            for d in {P.decls[u]["qn"] for u in P.decls if P.decls[u]["n"] == n}:
                I.models[notmpl(d)] = (lambda n: lambda I, fr, fi, i, x, s, d, o, a: ("app", n, a[0]))(n)
        hits = {u for u, g in P.funcs.items() if any(P.decls.get(x.get("fn") or "", {}).get("n") in (CHK, GET) for x in g.get("exprs", {}).values())}
        for u, g in P.funcs.items():
            if u != f["usr"] and not (u in hits and g["file"] == f["file"]): I.opaque.add(notmpl(g["qn"]))

        def has(fs, who):
            for g, r in fs.items():
                if isinstance(g, tuple) and g[:2] == ("app", "has") or (isinstance(g, tuple) and g[0] == "has"):
                    s = show(g)
                    if s == "has(%s)" % who: return r[:2]
            return None

        def value(fs, v):
            r = fs.get(v)
            return r[:2] if r else None

        def kind(v):
            s = show(v)
            if s.startswith(CHK):
                return "archive" if "archive->language" in s else "unit" if "->language" in s else None
            return "name" if s.startswith(GET) else None

        def judge(v, fs, line):
            at = (f["file"], line or f["line"])
            k = kind(v)
            un, ar = has(fs, "unit->language"), has(fs, "unit->archive->language")
            done["choices of a language"] = done.get("choices of a language", 0) + 1
            if v[0] == "int" and v[1]: viol["const"] = at + ("%s parses with language %s, whatever was asked for" % (f["qn"], v[1]),)
            if k == "archive" and un != (0, 0): viol["archive"] = at + ("%s takes the language of the archive without knowing that the unit has none" % f["qn"],)
            if k == "name":
                if un == (1, 1):
                    if not any(kind(g) == "unit" and r[:2] == (0, 0) for g, r in fs.items() if isinstance(g, tuple)): viol["name unit"] = at + ("%s takes the language of the extension although the unit has a language" % f["qn"],)
                elif un is None: viol["name any"] = at + ("%s takes the language of the extension without looking at that of the unit" % f["qn"],)
                elif ar == (1, 1):
                    if not any(kind(g) == "archive" and r[:2] == (0, 0) for g, r in fs.items() if isinstance(g, tuple)): viol["name archive"] = at + ("%s takes the language of the extension although the archive has a language" % f["qn"],)
                elif ar is None: viol["name no archive"] = at + ("%s takes the language of the extension without looking at that of the archive" % f["qn"],)
            if k == "unit" and un != (1, 1): viol["unit"] = at + ("%s takes the language of a unit that may have none" % f["qn"],)
            if k:
                r = fs.get(v)
                if r is None or (r[:2] == (0, 0)): viol["none %s" % k] = at + ("%s parses without a language" % f["qn"],)
        outs = list(I.analyze(f))
        for v, fs, l in set_: judge(v, fs, l)
        kinds = {kind(v) for v, fs, l in set_}
        if set_ and None not in kinds:
            for k, w in (("unit", "the language of the unit"), ("archive", "the language of the archive"), ("name", "the extension of the file")):
                if k not in kinds: viol["never %s" % k] = (f["file"], f["line"], "%s never chooses %s" % (f["qn"], w))
        for o in outs:
            if o.kind != "ret" or o.val != ("int", 7) or o.st.ts.get("set"): continue
            done["ways to have no language"] = done.get("ways to have no language", 0) + 1
            fs = o.st.facts
            ks = [(kind(g), r[:2]) for g, r in fs.items() if isinstance(g, tuple) and kind(g)]
            fn = [r for g, r in fs.items() if show(g) == "filename"]
            if not any(k == "name" for k, r in ks) and fn and fn[0][:2] != (0, 0): viol["gave up"] = (f["file"], f["line"], "%s gives up on a source with a file name without looking at its extension" % f["qn"])
            elif ks and ks[-1][1] != (0, 0) and not any(r == (0, 0) for k, r in ks): viol["refused"] = (f["file"], f["line"], "%s refuses a source whose language is known" % f["qn"])
    return viol, done


def run_check():
    P = facts.load(("libsrcml", "parser"))
    R = Report("C12", "the table of languages and the tables of extensions are read and compared; the lookups are interpreted for each entry: what is found is the entry that was compared equal, nothing is given up before all were compared, and of "
               "several registrations of an extension the last one counts; where a unit is parsed, the language of the unit goes before that of the archive, and that before the extension; none of them, no parse.")
    total = {}
    def job(j):
        try: return j(P, 0)
        except BudgetExceeded: return {}, {"parts too big to follow": 1}
    for viol, done in pmap(job, [tables, lookups, extensions, registering, choice]):
        for k, v in done.items(): total[k] = total.get(k, 0) + v
        for k, (file, l, t) in viol.items(): R.violation(k, "%s:%s" % (file.replace("/repo/", ""), l), t)
    for k, v in sorted(total.items()):
        R.ok("%s: %d" % (k, v), v)
        R.count(k, v)
    R.require("parts decided", len(total), 3)
    return R.finish(P)
