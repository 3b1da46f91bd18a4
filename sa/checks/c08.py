"""C08: opening, using, closing, reopening and freeing an archive releases every resource exactly once."""
from ..archsession import *
from ..report import Report


def brief(st):
    return ", ".join("%s=%s" % (l[2], "?" if v[0] not in ("int",) else v[1]) for l, v in sorted(st.mem.items(), key=repr) if l[0] == "f" and l[1] == OBJLOC and v != INT0)


def run_check():
    P = facts.load(("libsrcml", "parser"))
    pub = api.public(P)
    R = Report("C08", "All abstract states an archive can reach from srcml_archive_create through every sequence of open (each of the ten ways), write_unit, write_string, read_unit, skip_unit, "
               "close, reopen and free are enumerated by interpreting the functions on the state the previous call left. On every edge: no stream, buffer, writer or parser is used or "
               "released after its release, none becomes unreachable while open, close leaves no output stream open, the caller's memory is filled by exactly the first close after "
               "write_open_memory, a reopened archive is in the state of a newly opened one, and free leaves nothing behind.")
    S, steps, viol, start = explore(P, pub)
    for key, (w, text, chain) in viol.items(): R.violation(key, w, text + " (" + chain + ")")
    opened = {}
    for s in steps:
        w = api.where(P, pub[s.name])
        R.ok("%s in mode %s (%s)" % (s.name, s.mode, brief(s.src)))
        for t, r in s.leaks:
            if s.name != "srcml_archive_free" or t != OBJ: R.violation("%s|leak|%s" % (s.name, r[0]), w, "%s in mode %s loses the only reference to an open %s" % (s.name, s.mode, r[0]))
        if s.name == "srcml_archive_close":
            for k, r in s.out.st.ts.items():
                if k[0] == "r" and len(k) == 2 and r[0] in STREAMS and r[1] in ("live", "owned") and s.out.st.truth(k[1]) != 0:
                    own = [q for q, z in s.out.st.ts.items() if q[0] == "r" and len(q) == 2 and z[2] == k[1] and z[1] == "live" and s.out.st.truth(q[1]) != 0]
                    if r[1] == "live" or own: R.violation("close|open|%s" % r[0], w, "srcml_archive_close leaves an %s open" % r[0])
            stored = {k[1][1] for k in s.out.st.ts if k[0] == "user"}
            if s.mode == "write" and s.how.endswith("memory"):
                R.ok("close hands the memory over")
                # without a buffer there is nothing to hand over
                x = s.src.mem.get(("f", OBJLOC, "xbuffer"), INT0)
                if len(stored) < 2 and x != INT0 and s.out.st.truth(x) != 0 and s.out.kind == "ret": R.violation("close|memory", w, "srcml_archive_close after srcml_archive_write_open_memory stores only %s" % sorted(stored))
        stored = {k[1][1] for k in s.out.st.ts if k[0] == "user"}
        if stored and not (s.name == "srcml_archive_close" and s.mode == "write"):
            R.violation("%s|stores|%s" % (s.name, s.mode), w, "%s in mode %s writes through %s, which the caller handed to an earlier open" % (s.name, s.mode, sorted(stored)))
        if s.name == "srcml_archive_free":
            r = s.out.st.ts.get(("r", OBJ))
            if not r or r[1] != "rel": R.violation("free|object", w, "srcml_archive_free does not free the archive")
            for k, q in s.out.st.ts.items():
                if k[0] == "r" and len(k) == 2 and k[1] != OBJ and q[1] == "live" and s.out.st.truth(k[1]) != 0:
                    R.violation("free|leak|%s" % q[0], w, "srcml_archive_free in mode %s leaves an open %s behind" % (s.mode, q[0]))
        if s.name in WRITE_OPEN + READ_OPEN: opened.setdefault(s.name, {}).setdefault(s.mode, {})[(s.out.val, S.cls[s.dstnode])] = (s.src, s.dst)
    for name, by in sorted(opened.items()):
        R.ok("%s after close as when new" % name)
        for k, (src, dst) in by.get("closed", {}).items():
            if k not in by["new"]:
                ref = next(iter(by["new"].values()))[1]
                diff = sorted({l[2] for l in set(dst.mem) | set(ref.mem) if l[0] == "f" and l[1] == OBJLOC and dst.mem.get(l) != ref.mem.get(l)})
                R.violation("%s|reopen" % name, api.where(P, pub[name]), "%s on a closed archive leaves it in another state than on a new one: %s differ" % (name, diff or "resources"))
                break
    R.require("edges between abstract archive states", len(steps), 60)
    R.cov["abstract archive states"] = S.states
    R.cov["functions interpreted"] = len(S.functions)
    for m in ("new", "write", "read", "closed"):
        if not any(s.mode == m for s in steps): raise facts.AnalysisBroken("C08: mode %s was never reached" % m)
    R.assumptions = ["libxml2 releases and fails as documented (xmlNewTextWriter takes over the output buffer on success)", "memory allocation by operator new does not fail",
                     "an archive is closed before it is opened again"]
    return R.finish(P)
