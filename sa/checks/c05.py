"""C05: option flags."""
from ..interp import *
from .. import facts, api, bits
from ..report import Report
from ..absapi import *

GETS = {"options": "srcml_archive_get_options", "solitary": "srcml_archive_is_solitary_unit", "hash": "srcml_archive_has_hash"}
OPS = ("srcml_archive_set_options", "srcml_archive_enable_option", "srcml_archive_disable_option", "srcml_archive_enable_hash",
       "srcml_archive_disable_hash", "srcml_archive_enable_solitary_unit", "srcml_archive_disable_solitary_unit")


def flags(P):
    """option name -> (bit, public?) from the constants in the headers"""
    out = {}
    for k, v in P.vars.items():
        n = v["qn"]
        if not n.startswith("SRCML_OPTION_") or "DEFAULT" in n or n == "SRCML_OPTION_DEFAULT": continue
        c = P_const(P, k)
        if c is None or c & (c - 1) or not c: continue
        out[n] = (c.bit_length() - 1, v["file"].endswith("/srcml.h"))
    return out


def P_const(P, k):
    I = Interp(P)
    c = I.const_global(("g", k))
    return c[1] if c and c[0] == "int" else None


def rows(st, order, b):
    """assignments of bit b of the symbols that the path condition allows"""
    ok = (1 << (1 << len(order))) - 1
    full = ok
    for t, c in st.facts.items():
        try:
            s = set()
            bits.syms(t, s)
            if not s <= set(order): continue
            v = bits.vec(t, order)
        except bits.NotBitwise: continue
        nz = [k for k, x in enumerate(v) if x]
        if t in order or len(nz) != 1 or nz[0] != b: continue
        w = 1 << b
        m = v[b]
        allowed = 0
        if c[0] <= 0 <= c[1] and 0 not in c[2]: allowed |= full & ~m
        if c[0] <= w <= c[1] and w not in c[2]: allowed |= m
        ok &= allowed
    return ok


def run_check():
    P = facts.load(("libsrcml", "parser"))
    pub = api.public(P)
    fl = flags(P)
    pubbits = {b: n for n, (b, p) in fl.items() if p}
    intbits = {b: n for n, (b, p) in fl.items() if not p}
    R = Report("C05", "Each option function is abstractly interpreted on unknown options and an unknown argument; the resulting option word is a bitwise term, whose "
               "64 bits are decided as truth tables over (old bit, argument bit) under the path's condition. Public flags must follow the union / difference / replacement "
               "the function promises, the solitary-unit and hash switches must change only their own flag, and no other named flag may change.")
    R.require("public option flags", len(pubbits), 6)
    R.require("internal option flags", len(intbits), 5)
    cppb = fl["SRCML_OPTION_CPP"][0]
    decl = fl.get("SRCML_OPTION_CPP_DECLARED", (None,))[0]
    arch, hsh = fl["SRCML_OPTION_ARCHIVE"][0], fl["SRCML_OPTION_HASH"][0]
    # the word the queries look at
    words = set()
    gv = {}
    for k, g in GETS.items():
        for o in run(P, pub[g]):
            if o.kind == "ret":
                gv.setdefault(k, []).append(o.val)
                s = set()
                try: bits.syms(o.val, s)
                except Exception: pass
                words |= {x for x in s if x[0] == "init" and prefix_of(OBJLOC, x[1])}
    if len(words) != 1: raise facts.AnalysisBroken("C05: the options are not held in a single word: %s" % words)
    word = list(words)[0]
    order = sorted([word, ("p", "arg1")], key=repr)
    oi, ai = order.index(word), order.index(("p", "arg1"))
    T = lambda i: sum(1 << r for r in range(4) if r >> i & 1)
    O, A, FULL4 = T(oi), T(ai), 15
    # queries
    for k, want in (("options", None), ("solitary", ("n", arch)), ("hash", ("p", hsh))):
        for v in gv.get(k, []):
            w = api.where(P, pub[GETS[k]])
            try: vec = bits.vec(v, order)
            except bits.NotBitwise as e:
                raise facts.AnalysisBroken("C05: %s returns %s" % (GETS[k], show(v)))
            if k == "options":
                for b, n in pubbits.items():
                    R.ok("%s reports bit %d (%s)" % (GETS[k], b, n))
                    if vec[b] != O: R.violation("%s|%s" % (GETS[k], n), w, "%s does not report %s as set" % (GETS[k], n))
            else:
                R.ok("%s is flag %d" % (GETS[k], want[1]))
                # any non-zero result means true
                nz = [b for b, x in enumerate(vec) if x]
                e = O if want[0] == "p" else FULL4 & ~O
                exp = bits.vec(app("!", app("!", app("&", word, ("int", 1 << want[1])))), order) if want[0] == "p" else bits.vec(app("!", app("&", word, ("int", 1 << want[1]))), order)
                if vec != exp and not (len(nz) == 1 and vec[nz[0]] == e):
                    R.violation("%s|value" % GETS[k], w, "%s returns %s, not its flag" % (GETS[k], show(v)))
    for name in OPS:
        f = pub.get(name)
        if not f: raise facts.AnalysisBroken("C05: %s is gone" % name)
        w = api.where(P, f)
        st = State()
        typefacts(P, f, st)
        nok = 0
        for o in run(P, f, st, argsyms(P, f)):
            if o.kind != "ret" or o.st.truth(o.val) != 0: continue
            nok += 1
            v = o.st.mem.get(word[1], word)
            try: vec = bits.vec(v, order)
            except bits.NotBitwise:
                raise facts.AnalysisBroken("C05: %s leaves %s" % (name, show(v)))
            for b, n in sorted({**pubbits, **intbits}.items()):
                r = rows(o.st, order, b)
                care = r
                if name.endswith("set_options"): e = A if b in pubbits else O
                elif name.endswith("enable_option"): e = O | A if b in pubbits else O
                elif name.endswith("disable_option"): e = O & ~A if b in pubbits else O
                elif name.endswith("enable_hash"): e = FULL4 if b == hsh else O
                elif name.endswith("disable_hash"): e = 0 if b == hsh else O
                elif name.endswith("enable_solitary_unit"): e = 0 if b == arch else O
                else: e = FULL4 if b == arch else O
                if b == decl and name.endswith("option") or b == decl and name.endswith("options"):
                    # remembers that preprocessor markup was asked for by the user
                    if name.endswith("disable_option"): continue
                    cpp = rows(o.st, order, cppb)
                    if cpp & ~A & FULL4 == 0: e = FULL4          # every row of this path has the CPP bit in the argument
                    elif name.endswith("set_options"): continue
                R.ok("%s: flag %s" % (name, n))
                if (vec[b] ^ e) & care & FULL4:
                    R.violation("%s|%s" % (name, n), w, "%s: flag %s of the resulting options %s is wrong for some old options and argument" % (name, n, show(v)))
        if not nok: R.violation(name + "|never", w, "%s never succeeds" % name)
    R.require("option functions", len(OPS), 7)
    return R.finish(P)
