"""C15: every character of the source and of the metadata is written so that it is read back as itself."""
from .. import escape, facts, lexset, tokenout
from ..api import where
from ..effects import effects
from ..par import pmap
from ..report import Report


def chars(P, j):
    E, O, us = j
    bad, n = {}, 0
    for u, pi, c in us:
        b, m = escape.sink(P, E, u, pi, c)
        n += m
        for k, v in b.items(): bad.setdefault(k + (v[2],), v)
    return bad, n


def run():
    P = facts.load(("libsrcml", "parser", "gen"))
    E = effects(P)
    R = Report("C15", "The function of the writer that is given text is interpreted once for each of the 256 characters, at any place in a text of any length: what it writes for the character must be the character itself, or "
               "its entity where XML demands one, once, and with the length of what is written. On character sets the generated lexers must put a control character only into a token of its own; the text of that token must "
               "be made from its first character in a format that the readers turn back. The origin of the data of each call that writes markup without escaping is followed through variables, functions and callers: it may "
               "be a constant, a number, a prefix or the content of a unit; data that is escaped may not be such content. Attribute values taken from the parser must be decoded.")
    O = tokenout.Out(P, E)
    jobs = []
    for u in sorted(O.sinks):
        f = P.funcs[u]
        pi = next(i for i, p in enumerate(f["params"]) if "basic_string" in P.type(p["t"]).get("s", ""))
        jobs += [(E, O, [(u, pi, c) for c in range(k, 256, 8)]) for k in range(8)]
    bad, n = {}, 0
    for b, m in pmap(lambda j: chars(P, j), jobs):
        n += m
        for k, v in b.items(): bad.setdefault(k, v)
    R.ok("characters that reach the output", n)
    for k, (f, l, t) in sorted(bad.items(), key=str)[:12]: R.violation("text|%s|%s|%s" % (k[0], k[1], t), where(P, f, l), "%s %s" % (f["qn"].split("(")[0], t))
    R.require("functions that write text", len(O.sinks), 1)
    R.require("characters that reach the output", n, 256)
    # control characters
    rules = 0
    for c in tokenout.LEXERS:
        L = lexset.Lex(P, c).run()
        rules += len(L.nrules)
        R.ok("%s: rules on control characters" % c, len(L.nrules))
        for (kind, rule, line), m in sorted(L.bad.items()):
            if kind == "control": R.violation("%s|control|%s" % (c, rule), "%s::%s" % (c, rule), "%s::%s() puts a control character into a token that is written as text" % (c, rule))
    R.require("lexer rules", rules, 8)
    row = [(name, parts, line) for v, (name, parts, line) in O.rows.items() if name == "CONTROL_CHAR"]
    for name, parts, line in row:
        if not parts or parts[0] != "escape": R.violation("row|name", O.mapvar, "a control character is written as the element %s (line %d), which the readers do not know" % (parts[:1], line))
        else: R.ok("element for control characters")
    R.require("element for control characters", len(row), 1)
    for what, fn, least in (("texts of the element for control characters", escape.control_text, 1), ("readers of the element for control characters", escape.reading, 2), ("values of attributes taken from the parser", escape.decoded, 3)):
        b, n = fn(P)
        R.ok(what, n)
        R.require(what, n, least)
        done = set()
        for f, l, k, t in b:
            if (k, f["usr"]) not in done: R.violation("%s|%s" % (fn.__name__, k), where(P, f, l), "%s %s" % (f["qn"].split("(")[0], t))
            done.add((k, f["usr"]))
    b, n = escape.census(P, O.sinks)
    R.ok("places where data is written to the markup", n)
    R.require("places where data is written to the markup", n, 20)
    for f, l, k, t in b: R.violation("written|%s" % k, where(P, f, l), "%s %s" % (f["qn"].split("(")[0], t))
    R.assumptions = ["the functions of libxml2 that write strings and attributes escape them", "source text is valid UTF-8 (C16); U+FFFE and U+FFFF are not looked at",
                     "srcml_archive_write_string() is given markup", "namespace prefixes are names"]
    return R.finish(P)
