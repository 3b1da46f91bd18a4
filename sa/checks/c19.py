"""C19: the hash of a unit is the SHA-1 of exactly the bytes of its source."""
from ..inputbuf import *
from ..par import pmap
from ..report import Report


def place(f, l=None): return "%s:%s" % (f["file"].replace("/repo/", ""), l or f["line"])


def mode(P, j):
    e, hn = j
    h = Input()
    f, outs = readchars(P, h, e, hn)
    I = interp(P, h)
    for o in outs:
        if o.kind != "ret" or h.get(o.st, "again") or h.get(o.st, "iconvs"): continue
        # a return before any conversion: only with an error or nothing read
        pass
    return {k + (" needed" if hn else " unneeded"): (place(g, l), t) for k, (g, l, t) in h.viol.items() if k.startswith("hash")}, {k: n for k, n in h.done.items() if "hash" in k}


def ctor(P, _):
    viol, done = {}, {}
    for f in P.fns(CLS + "::" + CLS):
        names = [p["n"] for p in f["params"]]
        if "cooked_size" in names or "blocks" not in f or "hashneeded" not in names: continue
        hp = {p["n"]: ("p", p["v"]) for p in f["params"]}

        class H(Hooks):
            def call(self, I, st, qn, args, x, fr):
                q = qn.split("::")[-1]
                if q == "SHA1_Init": st.ts["init"] = min(2, st.ts.get("init", 0) + 1)
                elif q == "readChars": st.ts.setdefault("before", st.ts.get("init", 0))
        for want in (0, 1):
            I = Interp(P, hooks=H(), budget=400000)
            I.opaque |= {CLS + "::readChars", "antlr::CharBuffer::CharBuffer"}
            for o in I.analyze(f, args={names.index("hashneeded"): ("int", want)}):
                if o.kind != "ret": continue
                done["inputs set up"] = done.get("inputs set up", 0) + 1
                n = o.st.ts.get("before", o.st.ts.get("init", 0))
                if n != want: viol["init %d %s" % (want, ",".join(names))] = (place(f), "an input opened with (%s) starts the hash %d times before its source is read, although %s hash is wanted" % (",".join(names), n, "a" if want else "no"))
    return viol, done


def dtor(P, _):
    f = P.fn(CLS + "::~" + CLS)
    viol, done = {}, {}
    target = ("d", ("init", fld("hash")))

    class H(Hooks):
        def call(self, I, st, qn, args, x, fr):
            if qn.split("::")[-1] == "SHA1_Final":
                st.ts["final"] = min(2, st.ts.get("final", 0) + 1)
                if args[0][0] == "addr" and args[0][1][0] == "ix": st.ts["md"] = args[0][1][1]
            elif qn.split("::")[-1] == "SHA1_Update": st.ts["late"] = 1
        def write(self, I, st, loc, val, x, fr):
            if loc == target: st.ts["hash"] = val
    for want in (0, 1):
        I = Interp(P, hooks=H(), budget=400000)
        for o in I.analyze(f, setup=lambda I, st, fr: st.mem.__setitem__(fld("hashneeded"), ("int", want))):
            if o.kind != "ret": continue
            st = o.st
            done["inputs closed"] = done.get("inputs closed", 0) + 1
            if st.ts.get("final", 0) != want: viol["final %d" % want] = (place(f), "the hash is finished %d times although %s hash is wanted" % (st.ts.get("final", 0), "a" if want else "no"))
            if (st.ts.get("hash") is not None) != bool(want): viol["result %d" % want] = (place(f), "the hash of the unit is %s although %s hash is wanted" % ("not set" if want else "set", "a" if want else "no"))
            if not want: continue
            if st.ts.get("late"): viol["late"] = (place(f), "more is hashed after the input was closed")
            # the digits: positive evidence only
            digits = {}
            for l, v in st.mem.items():
                if l[0] == "ix" and l[2][0] == "int" and v[0] == "init" and v[1][0] == "ix" and v[1][1][0] == "g": digits.setdefault(l[1], {})[l[2][1]] = v[1]
            for arr, d in digits.items():
                if len(d) < 20: continue
                done["hash digits"] = done.get("hash digits", 0) + len(d)
                for i, (_, table, ix) in sorted(d.items()):
                    while ix[0] == "app" and ix[1] == "cast": ix = ix[2]
                    want_ = (i // 2, "high" if i % 2 == 0 else "low")
                    got = digit(ix)
                    if got is not None and got != want_: viol["digit %d" % i] = (place(f), "digit %d of the hash is the %s half of byte %s instead of the %s half of byte %d" % (i, got[1], got[0], want_[1], want_[0]))
                if max(d) != 39: viol["digits"] = (place(f), "the hash has %d digits instead of 40" % (max(d) + 1))
                end = st.mem.get(("ix", arr, ("int", max(d) + 1)))
                if end is not None and end[0] == "int" and end[1] != 0: viol["terminator"] = (place(f), "the hash is not terminated")
                for t in {x[1] for x in d.values()}:
                    s = text(P, t)
                    if s is not None and s != "0123456789abcdef": viol["alphabet"] = (place(f), "the digits of the hash are written as %r" % s)
    return viol, done


def text(P, g):
    v = P.vars.get(g[1])
    out = []

    def walk(e):
        if isinstance(e, dict):
            if e.get("k") == "StringLiteral":
                out.append(e.get("s") or e.get("str"))
                return
            if e.get("k") == "CharacterLiteral" or "cv" in e and not e.get("ops"):
                out.append(chr(e["cv"]))
                return
            for y in e.get("ops", ()): walk(y)
    if v: walk(v.get("init"))
    if not out or any(not isinstance(x, str) for x in out): return None
    return "".join(out)


def digit(ix):
    if ix[0] != "app": return None
    if ix[1] == ">>" and ix[3] == ("int", 4): half, e = "high", ix[2]
    elif ix[1] == "/" and ix[3] == ("int", 16): half, e = "high", ix[2]
    elif ix[1] == "&" and ("int", 15) in ix[2:4]: half, e = "low", [y for y in ix[2:4] if y != ("int", 15)][0]
    elif ix[1] == "%" and ix[3] == ("int", 16): half, e = "low", ix[2]
    else: return None
    while e[0] == "app" and e[1] == "cast" or e[0] == "app" and e[1] in ("&", ">>") and half == "low": e = e[2]
    if e[0] == "app" and e[1] == "&" and ("int", 240) in e[2:4]: e = [y for y in e[2:4] if y != ("int", 240)][0]
    while e[0] == "app" and e[1] == "cast": e = e[2]
    if e[0] == "app" and e[1] == "fld" and e[3][0] == "int": return (e[3][1], half)
    if e[0] == "init" and e[1][0] == "ix" and e[1][2][0] == "int": return (e[1][2][1], half)
    return None


HASH = ("sym", "users hash")


def passed(P, name):
    viol, n = {}, 0
    v = [x for x in P.vars.values() if x["qn"] == "SRCML_OPTION_HASH"]
    bit = v[0]["init"]["cv"] if v and "init" in v[0] and "cv" in v[0]["init"] else 1 << 15
    for state in ("none", "set", "generated"):
        for option in (0, 1):
            def setup(I, st, u, ar):
                st.mem[("f", u, "hash")] = ("none",) if state == "none" else ("some", HASH)
                st.mem[("f", u, "hash_generated")] = ("int", int(state == "generated"))
                st.mem[("f", ar, "options")] = ("int", bit if option else ((1 << 32) - 1) ^ bit)
            f, I, calls = parse(P, name, setup)
            want = int(option and state != "set")
            what = {"none": "a unit without a hash", "set": "a unit with a hash of its own", "generated": "a unit whose hash was generated by an earlier parse"}[state]
            for st, a, fn, l in calls:
                if len(a) < 4: continue
                n += 1
                got = st.truth(a[-2])
                if got is not None and got != want:
                    viol["hash wanted %s %s %d" % (name, state, option)] = (place(f), "%s %s the hash of its source, although the option to hash is %s" % (what, "gets" if got else "does not get", "on" if option else "off"))
                u = ("d", ("p", f["params"][0]["v"]))
                dst = a[-1][1] if a[-1][0] in ("L", "addr") else None
                if dst is not None and dst != ("f", u, "hash"): viol["hash target " + name] = (place(f), "%s leaves the hash in %s instead of the unit" % (name, show(a[-1])))
                h = I.read(st, ("f", u, "hash"))
                if state == "set" and h != ("some", HASH) and h[0] not in ("top", "loop"): viol["hash kept " + name] = (place(f), "%s changes the hash set for the unit" % name)
    return viol, {"inputs opened": n}


def run_check():
    P = facts.load(("libsrcml", "parser"))
    R = Report("C19", "UTF8CharBuffer is interpreted over symbolic buffer positions: on every path from a read to the conversion of its bytes, exactly the bytes that are new in the buffer go to SHA1_Update once when a "
               "hash is wanted, and none otherwise; SHA1_Init happens before the first read and SHA1_Final once at the end, and the 40 digits are the halves of the 20 bytes in order. The parse functions want a "
               "hash exactly when the option is on and the unit has none of its own, and it is left in the unit.")
    jobs = [(mode, (e, h)) for e in ENTRIES for h in (0, 1)] + [(passed, n) for n in PARSES] + [(ctor, 0), (dtor, 0)]
    jobs.sort(key=lambda j: 0 if j[0] is mode and "empty" in j[1][0] else 1)
    total = {}
    for viol, done in pmap(lambda j: j[0](P, j[1]), jobs):
        for k, v in done.items(): total[k] = total.get(k, 0) + v
        for k, (w, t) in viol.items(): R.violation(k, w, t)
    for k, v in sorted(total.items()):
        R.ok("%s: %d" % (k, v), v)
        R.count(k, v)
    R.require("hash updates", total.get("hash updates", 0), 1)
    R.require("inputs closed", total.get("inputs closed", 0), 2)
    R.require("inputs opened", total.get("inputs opened", 0), 10)
    return R.finish(P)
