"""C24: writing a unit element by element is refused outside a started unit, stays balanced, and holds its resources exactly while it is started."""
from ..unitsession import *
from ..report import Report

REFUSED = WRITE + [END]


def bad(P, f, o):
    """failure is reported"""
    if o.kind != "ret": return False
    neutral = P.type(f["ret"])["k"] == "ptr"
    return o.st.truth(o.val) == (0 if neutral else 1)


def good(P, f, o):
    return o.kind == "ret" and o.st.truth(o.val) == (1 if P.type(f["ret"])["k"] == "ptr" else 0)


IN = {"fresh": "a unit that was not started", "built": "a unit that was ended", "failed": "a unit whose start or end failed", "started": "a started unit"}


def run_check():
    P = facts.load(("libsrcml", "parser"))
    pub = api.public(P)
    R = Report("C24", "On every abstract state a unit can reach under any sequence of srcml_write_start_unit, _start_element, _end_element, _namespace, _attribute, _string, _end_unit, the content "
               "queries, unparse and free, each of these is interpreted, counting the elements opened and closed on the text writer. Outside a started unit every write must report failure and write nothing; "
               "closing more than was opened and an element named unit must be refused; end_unit must close exactly what is open; writer and buffers are held only while the unit is started and "
               "are released exactly once.")
    S, steps, viol, start = explore_unit(P, pub, WRITE + GET + UNPARSE + [START, END, FREE])
    can = {}
    lim = {}
    for s in steps:
        f = pub[s.name]
        w = api.where(P, f)
        o = s.out
        n = {k[1]: v for k, v in o.st.ts.items() if k[0] == "n"}
        touched = sorted(o.st.ts.get(("touch",), ()))
        bal = s.src.ts.get(("bal",))
        if s.leaks:
            R.violation("%s|leak|%s" % (s.name, s.leaks[0][1][0]), w, "%s on %s loses a %s without releasing it" % (s.name, IN[s.mode], s.leaks[0][1][0]))
        if s.name == FREE:
            R.ok("free leaves nothing")
            left = [r for k, r in o.st.ts.items() if k[0] == "r" and len(k) == 2 and r[1] == "live" and o.st.truth(k[1]) != 0]
            if left: R.violation("free|left", w, "srcml_unit_free leaves a %s of %s unreleased" % (left[0][0], IN[s.mode]))
            continue
        if s.name in REFUSED and s.mode != "started":
            where = "%s on %s" % (s.name, IN[s.mode])
            R.ok(where)
            if not bad(P, f, o): R.violation("%s|accepted|%s" % (s.name, s.mode), w, where + " is not refused")
            elif n or (touched and s.mode != "failed"): R.violation("%s|touch|%s" % (s.name, s.mode), w, where + " has an effect before it is refused: %s" % ", ".join(touched))
            continue
        if s.mode == "started" and s.name in WRITE + [END, START]:
            ok = good(P, f, o)
            if ok or not (s.name == WRITE[1] and bal == 0): can.setdefault((s.name, node(s)), 0)
            if ok: can[(s.name, node(s))] = 1
            if s.name == "srcml_write_end_element":
                R.ok("end_element with %s elements open" % ("some" if bal is None else bal))
                if bal == 0 and not bad(P, f, o): R.violation("end_element|none open", w, "srcml_write_end_element reports success when no element is open")
                if bal == 0 and n.get("close"): R.violation("end_element|unit closed", w, "srcml_write_end_element closes the unit element when no other element is open")
                if ok and (n.get("close", 0) != 1 or n.get("open")): R.violation("end_element|closes", w, "srcml_write_end_element reports success but closes %d elements" % n.get("close", 0))
            elif s.name == "srcml_write_start_element":
                R.ok("start_element opens one")
                if ok and (n.get("open", 0) != 1 or n.get("close")): R.violation("start_element|opens", w, "srcml_write_start_element reports success but opens %d elements" % n.get("open", 0))
            elif s.name in WRITE:
                R.ok("%s opens and closes nothing" % s.name)
                if n: R.violation("%s|elements" % s.name, w, "%s opens or closes elements" % s.name)
            elif s.name == END:
                R.ok("end_unit with %s elements open" % ("some" if bal is None else bal))
                c = n.get("close", 0)
                if ok and ((bal is not None and c != bal + 1) or c < 1 or n.get("open")):
                    R.violation("end_unit|closes", w, "srcml_write_end_unit with %s elements open inside the unit closes %d" % ("some" if bal is None else bal, c))
                if bal is None: lim[node(s)] = max(lim.get(node(s), 0), c)
            if s.name in WRITE + [END, START] and o.kind == "exc":
                R.violation("%s|exception" % s.name, w, "%s on %s can raise an exception" % (s.name, IN[s.mode]))
        if s.newmode == "built" and s.name == END and good(P, f, o):
            R.ok("end_unit releases writer and buffer")
            held = [r[0] for k, r in s.dst.ts.items() if k[0] == "r" and r[1] != "rel" and r[0] != "object"]
            if held: R.violation("end_unit|holds", w, "after srcml_write_end_unit the unit still holds a %s" % held[0])
        if s.name in GET and s.mode in ("fresh", "built"):
            R.ok("%s on %s" % (s.name, IN[s.mode]))
            if s.mode == "fresh" and o.st.truth(o.val) != 0: R.violation("%s|fresh" % s.name, w, "%s on a unit without content does not return NULL" % s.name)
            if s.mode == "built": can[(s.name, "built")] = can.get((s.name, "built"), 0) or int(o.st.truth(o.val) != 0)
        if s.name in UNPARSE and s.mode == "fresh":
            R.ok("%s on a unit without content" % s.name)
            if not bad(P, f, o): R.violation("%s|fresh" % s.name, w, "%s on a unit without content does not report an error" % s.name)
        if s.name == START: can[(START, s.mode)] = can.get((START, s.mode), 0) or int(good(P, f, o))
    for n, m in lim.items():
        if m < 3: R.violation("end_unit|closes", api.where(P, pub[END]), "srcml_write_end_unit does not close all open elements when several are open")
    for (name, st), v in sorted(can.items(), key=str):
        R.ok("%s can succeed" % name)
        if not v: R.violation("%s|never" % name, api.where(P, pub[name]), "%s can never succeed in a state where it should (%s)" % (name, st if isinstance(st, str) else st[0]))
    for k, (where, text, chain) in viol.items():
        R.violation(k, where, text + (" (%s)" % chain if chain else ""))
    element_named_unit(P, pub, R, S, steps)
    R.require("edges between abstract unit states", len(steps), 600)
    R.cov["abstract unit states"] = S.states
    R.cov["functions interpreted"] = len(S.functions)
    R.assumptions = ["memory allocation does not fail (libxml2's in-memory creators, operator new)", "the unit belongs to a live archive"]
    return R.finish(P)


def node(s): return s.srcnode


def element_named_unit(P, pub, R, S, steps):
    """an element named unit is refused, another name is not"""
    f = pub["srcml_write_start_element"]
    pos = next((i for i, p in enumerate(f["params"]) if p["n"] == "name"), 2)
    done = set()
    for s in steps:
        if s.mode != "started" or s.srcnode in done: continue
        done.add(s.srcnode)
        if len(done) > 4: break
        for text in ("unit", "expr"):
            a = opargs(P, f)
            a[pos] = ("str", text)
            h = UnitHooks("n", OPAQUE)
            outs = S.step(f, State(dict(s.src.mem), dict(s.src.facts), ts=dict(s.src.ts)), a, h, "named " + text)
            R.ok("start_element(%s)" % text)
            for o in outs:
                opened = o.st.ts.get(("n", "open"))
                if text == "unit" and (not bad(P, f, o) or opened):
                    R.violation("start_element|unit", api.where(P, f), "srcml_write_start_element accepts an element named unit")
            if text != "unit" and not any(good(P, f, o) for o in outs):
                R.violation("start_element|name", api.where(P, f), "srcml_write_start_element refuses an element that is not named unit")
