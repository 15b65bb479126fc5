"""C15 absent values and non-elements, C30 conjunction, C31 required descendants."""
from .. import spec, models
from ..dom import *
from ..facts import AnalysisBroken, rel, short
from .safety import program

TRUST = [
    "models of the C++ standard library in hx/models.py",
    "Gumbo's documented structures and functions",
]
# classes whose matches() tests attributes, counts or positions (statement of C15)
ELEMENT_MATCHES = ("AttributeMatch", "AttributeCountMatch", "ChildCountMatch", "NthChildMatch", "OnlyChildMatch")


def executed(R, P, f, **kw):
    """Exec, or None with a note when the function cannot be interpreted"""
    try:
        X = spec.Exec(P, f, **kw)
    except AnalysisBroken as ex:
        R.skip(short(f["qn"]), str(ex)[:300])
        return None
    R.fn(f)
    for i in X.c.seen:
        R.fn(P.fn[i])
    return X


def at(f):
    return "%s %s" % (rel(f["loc"]), short(f["qn"]))


def node_null(X, I, st):
    st.assume(X_node(I), False)


def X_node(I):
    for i in sorted(I.params):
        p = I.params[i]
        if "GumboInternalNode" in TYPES.get(p, "") or "GumboNode" in TYPES.get(p, ""):
            return p
    raise AnalysisBroken("no node parameter")


def node_other(P):
    el = spec.enum(P, "GumboNodeType", "GUMBO_NODE_ELEMENT")

    def go(X, I, st):
        n = X_node(I)
        st.assume(n, True)
        t = spec.ty(spec.node_field(P, n, "type"), "GumboNodeType")
        st.assume(mk_eq(t, ("i", el)), False)
    return go


def empty_result(v):
    return v in (("ap", "none"), ("str", ""))


def facts_of(p, limit=8):
    out = []
    for a, d in p.st.dom.items():
        if a[0] in ("rd", "ap", "phi") and "this" != show(a)[:4]:
            out.append("%s in %s" % (show(a)[:70], [x if not isinstance(x, frozenset) else sorted(x)[:4] for x in d]))
    return "; ".join(out[:limit])


def lookup(p):
    """result of the attribute lookup on this path"""
    found = []

    def look(t):
        mentions(t, lambda x: found.append(x) if x[:2] == ("ap", "gumbo_get_attribute") else False)
    for t in list(p.st.dom) + [p.ret] + [x for n in p.st.nes for x in n] + list(p.st.eqs):
        look(t)
    for e in p.trace:
        if e[0] == "call":
            look(e[5])
    return found[0] if found else None


def attribute_tests(R, P):
    """AttributeMatch hands exactly the attribute's value, or its absence, to its test"""
    for f in spec.outermost(P, "hext::Match", "matches"):
        if short(f["qn"]) != "hext::AttributeMatch::matches":
            continue
        X = executed(R, P, f)
        if X is None:
            continue
        tp = spec.ty(("rd", F(("P", ("ap", "this")), "test_", "$p")), "hext::ValueTest *")
        for k, p in enumerate(X.returns):
            a = lookup(p)
            if a is None:
                continue
            for absent in (True, False):
                for hastest in (True, False):
                    s = p.with_((mk_eq(a, I0), absent), (mk_eq(tp, I0), not hastest))
                    if s is None:
                        continue
                    what = "%s, path %d, attribute %s, %s test" % (at(f), k + 1, "absent" if absent else "present", "with" if hastest else "without")
                    if not hastest:
                        R.check("absent attribute", s.decide(p.ret) is not absent and s.decide(p.ret) is not None, what, "returns %s" % show(p.ret))
                        continue
                    val = ("rd", F(("P", a), "value"))
                    want = I0 if absent else val
                    cs = [e for e in p.calls("ValueTest::test") if e[3] == tp]
                    if not cs:
                        ok = not absent and s.decide(mk_eq(val, I0)) is True and s.decide(p.ret) is False
                        R.check("absent attribute", ok, what, "returns %s without asking the value test" % show(p.ret))
                        continue
                    arg = cs[-1][4][0]
                    good = s.decide(mk_eq(arg, want)) is True
                    for truth in (True, False):
                        y = spec.assume_all(s, [])
                        if y.assume(cs[-1][5], truth) and not y.dead:
                            good = good and y.decide(p.ret) is truth
                    R.check("absent attribute", good, what, "tests %s and returns %s" % (show(arg), show(p.ret)))


def c15(R):
    P = program()
    R.rule("absent attribute", "AttributeMatch::matches returns exactly the result of its value test, applied to null when the attribute is absent and to its value when present", 3)
    attribute_tests(R, P)
    R.rule("absent value fails", "test(nullptr) of every value test returns false on every path", 6)
    R.rule("negation of absent", "a negation returns the opposite of the negated test of the same subject on every path", 1)
    R.rule("non-element rejected", "matches() of attribute, count and position matches returns false on every path on which the node is null or not an element", 10)
    R.rule("tagged rule", "Rule::matches returns false on every path on which the node is null, or is not an element and the rule has a tag", 2)
    R.rule("nothing captured", "attribute captures and inner-html yield nothing on every path on which the node is null or not an element", 4)
    tests = spec.outermost(P, "hext::ValueTest", "test")
    for f in tests:
        X = executed(R, P, f, setup=lambda X, I, st: st.assume(I.params[0], False))
        if X is None:
            continue
        inner = any(p.calls("ValueTest::test") for p in X.returns)
        if inner or "Negate" in f["qn"]:
            ok, why = True, ""
            for p in X.returns:
                cs = p.calls("ValueTest::test")
                if not cs:
                    good = p.true(p.ret)
                else:
                    r, a = cs[-1][5], cs[-1][4][0]
                    t, fl = p.with_((r, True)), p.with_((r, False))
                    good = p.null(a) and (t is None or t.decide(p.ret) is False) and (fl is None or fl.decide(p.ret) is True)
                if not good:
                    ok, why = False, "returns %s" % show(p.ret)
            R.check("negation of absent", ok, at(f), "negation of an absent value: %s" % why)
        else:
            bad = [p for p in X.returns if not p.false(p.ret)]
            R.check("absent value fails", not bad, at(f), "test(nullptr) may return %s" % (show(bad[0].ret) if bad else ""))
    # every override of Match::matches in classes on attributes, counts, positions
    for cls in ELEMENT_MATCHES:
        for f in spec.outermost(P, "hext::Match", "matches"):
            if short(f["qn"]) != "hext::%s::matches" % cls:
                continue
            for name, setup in (("null node", node_null), ("no element", node_other(P))):
                X = executed(R, P, f, setup=setup)
                if X is None:
                    continue
                bad = [p for p in X.returns if not p.false(p.ret)]
                R.check("non-element rejected", not bad, "%s, %s" % (at(f), name), "may return %s for %s" % (show(bad[0].ret) if bad else "", name))
    anyt = spec.enum(P, "HtmlTag", "ANY")
    for f in P.byqn("hext::Rule::matches"):
        def tagged(X, I, st):
            node_other(P)(X, I, st)
            tag = spec.ty(("rd", F(("P", ("ap", "this")), "tag_")), "hext::HtmlTag")
            st.assume(mk_eq(tag, ("i", anyt)), False)
        for name, setup in (("null node", node_null), ("no element, rule with tag", tagged)):
            X = executed(R, P, f, setup=setup)
            if X is None:
                continue
            bad = [p for p in X.returns if not p.false(p.ret)]
            R.check("tagged rule", not bad, "%s, %s" % (at(f), name), "may return %s for %s" % (show(bad[0].ret) if bad else "", name))
    fs = [f for f in spec.outermost(P, "hext::Capture", "capture") if "AttributeCapture" in f["qn"]] + P.byqn("hext::NodeInnerHtml")
    for f in fs:
        for name, setup in (("null node", node_null), ("no element", node_other(P))):
            X = executed(R, P, f, setup=setup)
            if X is None:
                continue
            bad = [p for p in X.returns if not empty_result(p.ret)]
            R.check("nothing captured", not bad, "%s, %s" % (at(f), name), "may return %s for %s" % (show(bad[0].ret) if bad else "", name))
    return R.finish("other", "Path-sensitive abstract interpretation of every value test with an absent subject and of every match, capture and "
                    "serialisation with a node that is null or of another kind; the returned term must be decided on every path.", TRUST)


MATCH = "hext::Match::matches"


def element_of(t, field):
    """(container, index) if t is the pointer held by an element of this->field"""
    if t[0] == "rd" and t[1][0] == "F" and t[1][2] == "$p":
        t = t[1][1]
        if t[0] == "I" and t[1] == F(("P", ("ap", "this")), field):
            return t[1], t[2]
    return None


def verdicts(s, events, field, node):
    """[(index, verdict term)] of matches called on elements of this->field in these events"""
    out = []
    for e in events:
        if e[0] == "call" and e[1] == MATCH and e[3] is not None:
            el = element_of(e[3], field)
            if el and e[4] and s.decide(mk_eq(e[4][0], node)) is True:
                out.append((el[0], el[1], e[3], e[5]))
    return out


def all_accept(X, s, field, node, want):
    """is there a loop over this->field that visits every element, in which every present match gave `want`?"""
    why = "no loop over %s visits every element" % field
    n0 = size_of_field(X, s, field)
    if s.decide(mk_eq(n0, I0)) is True:
        return True, ""
    for lid in spec.loops_in(trace_list(s.trace)):
        L = X.loops.get(lid)
        if L is None:
            continue
        idxs = set()
        for b in L.backs:
            for c, i, obj, res in verdicts(b, trace_list(b.trace, L.start), field, node):
                idxs.add((c, i))
        for c, i in idxs:
            if spec.covers(X, L, spec.size_of(X, L.head, c), i, s):
                good = True
                for b in spec.rounds(L, s):
                    vs = [v for v in verdicts(b, trace_list(b.trace, L.start), field, node) if (v[0], v[1]) == (c, i)]
                    el = ("rd", F(("I", c, i), "$p"))
                    if vs:
                        good = good and all(b.decide(v[3]) is want for v in vs)
                    else:
                        good = good and b.decide(mk_eq(el, I0)) is True
                if good:
                    return True, ""
                why = "a round can end without the match having %s" % ("accepted" if want else "rejected")
    return False, why


def size_of_field(X, s, field):
    return spec.ty(s.load(F(("P", ("ap", "this")), field, "$n")), "unsigned long")


def some_verdict(X, s, field, node, want):
    """was some match of this->field called for the node and gave `want`?"""
    tr = trace_list(s.trace)
    for c, i, obj, res in verdicts(s, tr, field, node):
        if s.decide(res) is want:
            return True
    for lid in spec.loops_in(tr):
        L = X.loops.get(lid)
        if L is None:
            continue
        for loc, (phi, t, entry) in L.phis.items():
            v = spec.fixed(s, phi)
            if v is None or spec.fixed(L.entry, entry) in (None, v):
                continue
            ss = spec.introducing(L, loc, v)
            if ss and all(any(b.decide(r[3]) is want for r in verdicts(b, trace_list(b.trace, L.start), field, node)) for b in ss):
                return True
    return False


IGNORECASE = ("gumbo_string_equals_ignore_case", "strncasecmp", "strcasecmp", "iequals")
EXACT = ("gumbo_string_equals", "strncmp", "strcmp", "memcmp", "std::equal")


def names_compared(s, truth):
    """is a comparison of the rule's tagname and the node's original tag known to have this result, and how is it made?"""
    for t, d in list(s.dom.items()):
        if t[0] not in ("ap", "eq"):
            continue
        if mentions(t, lambda x: x[:1] == ("F",) and x[2:3] == ("tagname_",)) and mentions(t, lambda x: x[:2] in (("ap", "tagname_data"),) or x[:1] == ("F",) and x[2:3] == ("original_tag",)):
            n = t[1] if t[0] == "ap" else "=="
            r = s.decide(t)
            if str(n).endswith("cmp"):
                r = None if r is None else not r
            if r is truth:
                yield n


def full_names(s):
    """comparisons of Gumbo string pieces (known to be equal) cover both names in full"""
    def ours(t):
        return mentions(t, lambda x: x[:1] == ("F",) and x[2:3] == ("tagname_",))
    for t, d in list(s.dom.items()):
        if t[0] != "ap" or len(t) < 4 or not all(x[:2] == ("ap", "piece") for x in t[2:4]) or s.decide(t) is not True:
            continue
        a, b = (t[2], t[3]) if ours(t[2]) else (t[3], t[2])
        if not ours(a) or not mentions(b, lambda x: x[:2] == ("ap", "tagname_data")):
            continue
        na, nb = ("ap", "size", a[2][2]) if a[2][:2] == ("ap", "data") else None, ("ap", "tagname_len") + b[2][2:] if b[2][:2] == ("ap", "tagname_data") else None
        if na is None or nb is None:
            continue
        if s.decide(mk_eq(na, nb)) is not True and not (s.decide(mk_eq(a[3], na)) is True and s.decide(mk_eq(b[3], nb)) is True):
            return False
    return True


def c30(R):
    P = program()
    R.rule("accepts only if all accept", "every path of Rule::matches that returns true knows that the node exists, that its tag fits and that every match, visited in a complete loop, accepted it", 1)
    R.rule("rejects only if one rejects", "every path that returns false knows that the node is absent, the tag differs or some match rejected the node", 1)
    R.rule("negation", "NegateMatch::matches returns true only if every match of a complete loop rejected the node, false only if one accepted it", 2)
    R.rule("nothing lost", "append_match adds the given match behind all existing ones, on every path", 2)
    R.rule("custom tag", "a rule made for an unknown tag name keeps that name; names are compared ignoring case", 1)
    anyt, unk = spec.enum(P, "HtmlTag", "ANY"), spec.enum(P, "HtmlTag", "UNKNOWN")
    elem = spec.enum(P, "GumboNodeType", "GUMBO_NODE_ELEMENT")
    this = ("P", ("ap", "this"))

    def split(p):
        for truth in (True, False):
            s = p.with_((p.ret, truth))
            if s is not None:
                yield truth, s

    for f in P.byqn("hext::Rule::matches"):
        X = executed(R, P, f)
        if X is None:
            continue
        node = X_node(X.I)
        tag = spec.ty(("rd", F(this, "tag_")), "hext::HtmlTag")
        ntype = spec.ty(("rd", F(("P", node), "type")), "GumboNodeType")
        ntag = spec.ty(("rd", F(("P", node), "v", "element", "tag")), "GumboTag")
        n = {True: 0, False: 0}
        for p in X.returns:
            for truth, s in split(p):
                n[truth] += 1
                wild = s.decide(mk_eq(tag, ("i", anyt)))
                isel = s.decide(mk_eq(ntype, ("i", elem)))
                same = s.decide(mk_eq(tag, ntag))
                custom = s.decide(mk_eq(tag, ("i", unk)))
                if truth:
                    ok, why = s.nonnull(node), "node may be null"
                    if ok and wild is not True:
                        if not (isel is True and same is True):
                            ok, why = False, "tag may differ"
                        elif custom is not False:
                            how = list(names_compared(s, True))
                            if how and not full_names(s):
                                ok, why = False, "names of custom tags are not compared in full"
                            if not how:
                                ok, why = False, "name of a custom tag is not compared"
                            elif all(any(h.endswith(x) for x in EXACT) and not any(h.endswith(x) for x in IGNORECASE) for h in how):
                                ok, why = False, "name of a custom tag is compared with regard to case"
                    if ok:
                        ok, why = all_accept(X, s, "matches_", node, True)
                    R.check("accepts only if all accept", ok, "%s, path %d returning true" % (at(f), n[True]), why)
                else:
                    ok = s.decide(mk_eq(node, I0)) is True
                    ok = ok or wild is False and (isel is False or same is False)
                    ok = ok or wild is False and custom is True and names_differ(s, node)
                    ok = ok or some_verdict(X, s, "matches_", node, False)
                    R.check("rejects only if one rejects", ok, "%s, path %d returning false" % (at(f), n[False]),
                            "returns false although nothing rejected the node: %s" % facts_of(p))
    for f in P.byqn("hext::NegateMatch::matches"):
        X = executed(R, P, f)
        if X is None:
            continue
        node = X_node(X.I)
        for p in X.returns:
            for truth, s in split(p):
                if truth:
                    ok, why = all_accept(X, s, "matches_", node, False)
                    ok = ok or s.decide(mk_eq(node, I0)) is True
                else:
                    ok, why = some_verdict(X, s, "matches_", node, True), "no match accepted the node"
                R.check("negation", ok, "%s, path returning %s" % (at(f), truth), why)
    for cls in ("Rule", "NegateMatch"):
        for f in P.byqn("hext::%s::append_match" % cls):
            if not f.get("has_body") or len(f["params"]) != 1 or f.get("targs"):
                continue
            X = executed(R, P, f)
            if X is None:
                continue
            for p in X.returns:
                R.check("nothing lost", appended(X, p.st, F(this, "matches_"), X.params[0]), at(f), "the given match is not the new last one: %s" % show(p.st.load(F(this, "matches_", "$q")))[:200])
    for f in P.fn.values():
        if f.get("record") == "hext::Rule" and f.get("kind") == "ctor" and f["params"] and "basic_string" in f["params"][0]["t"] and f.get("has_body"):
            X = executed(R, P, f)
            if X is None:
                continue
            for p in X.returns:
                t = p.st.load(F(this, "tag_"))
                for truth in (True, False):
                    s = p.with_((mk_eq(t, ("i", unk)), truth))
                    if s is None:
                        continue
                    has = s.decide(s.load(F(this, "tagname_", "$has"), "bool"))
                    if truth:
                        v = models.S(s, F(this, "tagname_", "$val"))
                        ok = has is True and v == models.S(X.entry, X.params[0])
                    else:
                        ok = True
                    R.check("custom tag", ok, "%s, %s" % (at(f), "unknown tag" if truth else "known tag"), "name of the tag is not kept")
    return R.finish("other", "All abstract paths of Rule::matches and NegateMatch::matches, with loops judged by an arbitrary round, start, step and "
                    "end condition; every returned value must follow from the facts on its path.", TRUST)


def names_differ(s, node):
    if any(True for _ in names_compared(s, False)):
        return True
    has = s.load(F(("P", ("ap", "this")), "tagname_", "$has"), "bool")
    if s.decide(has) is False:
        return True
    for fld in ("data", "length"):
        t = ("rd", F(("P", node), "v", "element", "original_tag", fld))
        if s.decide(mk_eq(t, I0)) is True:
            return True
    # lengths of both names are known to differ
    for a, b in s.nes:
        for x in (a, b):
            if x[0] in ("ap", "rd", "lin") and mentions(("eq", a, b), lambda y: y[:2] == ("ap", "tagname_len")) and \
                    mentions(("eq", a, b), lambda y: y[:1] == ("F",) and y[2:3] == ("tagname_",)):
                return True
    for lin in s.rels:
        ts = lin[1]
        if len(ts) == 2 and any(t[0][:2] == ("ap", "tagname_len") for t in ts) and any(mentions(t[0], lambda y: y[:1] == ("F",) and y[2:3] == ("tagname_",)) for t in ts) and lin[0] == 1:
            return True
    return False


def appended(X, st, vec, param):
    """vec == old contents + the value of the (moved) parameter"""
    n = lin_comb(to_lin(st.load(F(vec, "$n"))), 1, to_lin(("rd", F(vec, "$n"))), -1)
    if n != (1, ()):
        return False
    q = st.load(F(vec, "$q"))
    ps = models.pieces(q)
    return len(ps) == 2 and ps[0] == ("rd", F(vec, "$q")) and mentions(ps[1], lambda x: x == X.entry.load(F(param, "$p")))
