"""C33: rules keep everything that is appended to them or set, in order, and capture everything they are asked to."""
from .. import spec, models
from ..dom import *
from ..facts import AnalysisBroken, short, walk
from .safety import program
from .matching import executed, at, appended, TRUST
from .pipes import links
from .search import same, null, round_of, direct

RULE = "hext::Rule"
THIS = ("P", ("ap", "this"))
NEXT, CHILD = RULE + "::append_next", RULE + "::append_child"
#: setter, field, getter
MARKS = (("set_tag", "tag_", "get_tag"), ("set_optional", "is_optional_", "is_optional"), ("set_greedy", "is_greedy_", "is_greedy"))
OTHER = {"tag_": "HtmlTag", "is_optional_": "bool", "is_greedy_": "bool"}


def methods(P, name, n=None):
    for f in P.byqn(RULE + "::" + name):
        if f.get("has_body") and (n is None or len(f["params"]) == n):
            yield f


def unknown(s, vec):
    """is nothing known about the contents of the vector any more?"""
    return ("rd", F(vec, "$q")) not in models.pieces(s.load(F(vec, "$q")))


def c33(R):
    P = program()
    R.rule("appended last", "matches, captures and nested rules are appended behind all existing ones, on every path", 3)
    R.rule("rules in order", "a sibling is put behind the last sibling, a child behind the last child, with everything it has, and no other link changes", 3)
    R.rule("marks", "a rule has the tag, the optional and the greedy mark it was constructed with or that were set last; setting one changes no other; they are reported as they are", 9)
    R.rule("parts", "child, next and nested give access to the first child, the next sibling and the nested rules", 3)
    R.rule("captured", "Rule::capture asks every capture once, in order, for the node given, and returns every value", 2)
    have = {x["name"] for x in (P.records.get(RULE) or {}).get("fields", [])}
    for name, field in (("append_match", "matches_"), ("append_capture", "captures_"), ("append_nested", "nested_")):
        if have and field not in have:
            R.skip(name, "no member " + field)
            continue
        for f in methods(P, name, 1):
            X = executed(R, P, f)
            for k, p in enumerate(X.returns if X else ()):
                what, vec = "%s, path %d" % (at(f), k + 1), F(THIS, field)
                n = lin_comb(to_lin(p.st.load(F(vec, "$n"))), 1, to_lin(("rd", F(vec, "$n"))), -1)
                if n == (1, ()) and inserted(X, p.st, vec, X.params[0], field):
                    R.ok("appended last", what)
                elif n != (0, ()) and unknown(p.st, vec) and infront(P, X):
                    R.violation("appended last", what, "the argument is put in front of the elements of " + field, key="appended last:" + name)
                elif n != (0, ()) and unknown(p.st, vec):
                    R.skip(what, "contents of %s not known" % field)
                else:
                    R.violation("appended last", what, "the argument is not the new last element of %s: %s" % (field, show(p.st.load(F(vec, "$q")))[:160]), key="appended last:" + name)
    anchors = (spec.ANCHORS - {RULE + "::capture"}) | {NEXT, CHILD}
    for name, start in (("append_next", None), ("append_child", "first_child_")):
        for f in methods(P, name, 1):
            X = executed(R, P, f, anchors=anchors)
            for k, p in enumerate(X.returns if X else ()):
                linked(R, X, p, "%s, path %d" % (at(f), k + 1), start, name)
    marks(R, P)
    for name, field in (("child", "first_child_"), ("next", "next_")):
        for f in methods(P, name, 0):
            X = executed(R, P, f)
            for k, p in enumerate(X.returns if X else ()):
                R.check("parts", same(p.st, p.ret, ("rd", F(F(THIS, field), "$p"))), "%s, path %d" % (at(f), k + 1), "returns %s" % show(p.ret)[:100], key="parts:" + name)
    for f in methods(P, "nested", 0):
        X = executed(R, P, f)
        for k, p in enumerate(X.returns if X else ()):
            ok = p.ret == ("LV", F(THIS, "nested_")) or isinstance(p.ret, tuple) and p.ret[0] == "LV" and p.ret[1] == F(THIS, "nested_")
            R.check("parts", ok, "%s, path %d" % (at(f), k + 1), "returns %s" % str(p.ret)[:100], key="parts:nested")
    for f in methods(P, "capture", 1):
        X = executed(R, P, f, anchors=anchors)
        if X is not None:
            capture(R, P, f, X)
    return R.finish("other", "Every path of the functions that build rules, and an arbitrary round of their loops, compared with what they have to leave behind.", TRUST)


def last(e):
    return str(e.get("qn") or "").rsplit("::", 1)[-1]


def infront(P, X):
    """does the function insert at the beginning?"""
    for g in [X.f] + [P.fn[i] for i in X.c.seen]:
        for e in walk(g.get("body")):
            if e.get("k") == "call" and last(e) in ("insert", "emplace") and e.get("args"):
                inner = [last(y) for y in walk(e["args"][0])]
                if any(y in ("begin", "cbegin") for y in inner) and not any(y in ("operator+", "operator+=", "next", "end", "cend") for y in inner):
                    return True
    return False


def inserted(X, s, vec, param, field):
    if field != "nested_":
        if "unique_ptr" not in X.f["params"][0]["t"]:
            # made from the arguments
            return len(models.pieces(s.load(F(vec, "$q")))) == 2
        return appended(X, s, vec, param)
    ps = models.pieces(s.load(F(vec, "$q")))
    first = X.entry.load(F(F(param, "first_child_"), "$p"))
    return len(ps) == 2 and ps[0] == ("rd", F(vec, "$q")) and mention(ps[1], first)


def mention(t, x):
    return t == x or isinstance(t, tuple) and any(mention(y, x) for y in t)


def is_new(X, s, v, param):
    """is v a new rule with everything the argument has?"""
    if v[0] != "addr":
        return False
    n = v[1]
    for fld in ("first_child_", "next_"):
        if not same(s, s.load(F(F(n, fld), "$p")), X.entry.load(F(F(param, fld), "$p"))):
            return False
    return all(same(s, s.load(F(n, fld), t), X.entry.load(F(param, fld), t)) for fld, t in OTHER.items())


def linked(R, X, p, what, start, name):
    s, new = p.st, X.params[0]
    rule = "rules in order"
    key = rule + ":" + name
    apps = [e for e in p.trace if e[0] == "call" and e[1] in (NEXT, CHILD)]
    first = ("rd", F(F(THIS, "first_child_"), "$p"))
    head = s.load(F(F(THIS, "first_child_"), "$p"))
    writes = [(q, v) for q, v in links(s, "next_")]
    newfirst = not same(s, head, first)
    begin = ("ap", "this") if start is None else first
    if apps:
        ok = len(apps) == 1 and apps[0][1] == NEXT and not writes and not newfirst and chain(X, s, apps[0][3], begin) and \
            mention(apps[0][4][0], X.entry.load(F(F(new, "first_child_"), "$p")))
        R.check(rule, ok, what, "appends %s to %s" % (show(apps[0][4][0])[:80], show(apps[0][3])[:80]), key=key)
        return
    if start is not None and newfirst:
        ok = null(s, first) and is_new(X, s, head, new) and not [w for w in writes if not own(w, head)]
        R.check(rule, ok, what, "the first child is replaced by %s" % show(head)[:100], key=key)
        return
    writes = [w for w in writes if w[0][0] == "slot" or not (w[0][0] == "addr" and w[0][1][0] == "T")]
    if not writes and any("unique_ptr" in (v[1] or "") for L in X.loops.values() for v in L.phis.values()):
        R.skip(what, "walks along the links themselves")
        return
    if len(writes) != 1 or newfirst:
        R.check(rule, False, what, "the rule is dropped" if not writes and not newfirst else "changes several links", key=key)
        return
    q, v = writes[0]
    if q[0] == "slot":
        R.skip(what, "walks along the links themselves")
        return
    old = ("rd", F(F(("P", q), "next_"), "$p"))
    R.check(rule, null(s, old) and chain(X, s, q, begin) and is_new(X, s, v, new), what,
            "%s gets %s as next sibling" % (show(q)[:80], show(v)[:80]) + ("" if null(s, old) else ", whatever was there before"), key=key)


def own(w, head):
    return w[0] == head


def chain(X, s, q, begin, depth=0):
    if q is None or depth > 6:
        return False
    if same(s, q, begin):
        return True
    if q[0] == "rd" and q[1][0] == "F" and q[1][2] == "$p" and q[1][1][0] == "F" and q[1][1][2] == "next_" and q[1][1][1][0] == "P":
        return chain(X, s, q[1][1][1][1], begin, depth + 1)
    if q[0] == "phi":
        for L in X.loops.values():
            for loc, (phi, t, entry) in L.phis.items():
                if phi == q:
                    nx = ("rd", F(F(("P", phi), "next_"), "$p"))
                    return chain(X, L.entry, entry, begin, depth + 1) and all(same(b, b.load(loc, t), nx) or b.load(loc, t) == phi for b in L.backs)
    return False


def marks(R, P):
    for setter, field, getter in MARKS:
        for f in methods(P, setter, 1):
            X = executed(R, P, f)
            for k, p in enumerate(X.returns if X else ()):
                what = "%s, path %d" % (at(f), k + 1)
                v = p.st.load(F(THIS, field), OTHER[field])
                R.check("marks", same(p.st, v, X.params[0]), what, "sets %s" % show(v)[:100], key="marks:" + setter)
                for o, t in OTHER.items():
                    if o != field:
                        R.check("marks", same(p.st, p.st.load(F(THIS, o), t), ("rd", F(THIS, o))), what, "changes " + o, key="marks:%s:%s" % (setter, o))
        for f in methods(P, getter, 0):
            X = executed(R, P, f)
            for k, p in enumerate(X.returns if X else ()):
                R.check("marks", same(p.st, p.ret, ("rd", F(THIS, field))), "%s, path %d" % (at(f), k + 1), "returns %s" % show(p.ret)[:100], key="marks:" + getter)
    for f in P.fn.values():
        if f.get("record") != RULE or f.get("kind") != "ctor" or not f.get("has_body") or len(f["params"]) != 3:
            continue
        bools = [i for i, q in enumerate(f["params"]) if q["t"] == "bool"]
        if len(bools) != 2:
            continue
        X = executed(R, P, f)
        for k, p in enumerate(X.returns if X else ()):
            what = "%s, path %d" % (at(f), k + 1)
            want = [("is_optional_", bools[0]), ("is_greedy_", bools[1])]
            if 0 not in bools and f["params"][0]["t"].endswith("HtmlTag"):
                want.append(("tag_", 0))
            for field, i in want:
                v = p.st.load(F(THIS, field), OTHER[field])
                R.check("marks", same(p.st, v, X.params[i]), what, "%s is %s" % (field, show(v)[:100]), key="marks:constructor:" + field)
    for f in methods(P, "set_tagname", 1):
        X = executed(R, P, f)
        for k, p in enumerate(X.returns if X else ()):
            t = F(THIS, "tagname_")
            ok = fixed1(p.st, p.st.load(F(t, "$has"))) and same(p.st, p.st.load(F(F(t, "$val"), "$s")), X.entry.load(F(loc(X.params[0]), "$s")))
            R.check("marks", ok, "%s, path %d" % (at(f), k + 1), "the tag name is %s" % show(p.st.load(F(F(t, "$val"), "$s")))[:100], key="marks:tagname")


def loc(x):
    return x[1] if x[0] == "LV" else x


def fixed1(s, t):
    return s.decide(t) is True


def capture(R, P, f, X):
    node = X.params[0]
    caps = F(THIS, "captures_")
    size = spec.ty(("rd", F(caps, "$n")), "unsigned long")
    found = False

    def asks(tr):
        return [e for e in direct(tr, X) if e[0] == "call" and e[1].endswith("Capture::capture")]
    for L in X.loops.values():
        if not any(asks(round_of(L, b)) for b in L.backs):
            continue
        found = True
        what = "%s, loop at %s" % (at(f), L.line)
        idx = None
        for b in L.backs:
            for e in asks(round_of(L, b)):
                o = e[3]
                if o and o[0] == "rd" and o[1][0] == "F" and o[1][2] == "$p" and o[1][1][0] == "I" and o[1][1][1] == caps:
                    idx = o[1][1][2]
        r = spec.phi_of(L, idx) if idx is not None else None
        if r is None:
            R.skip(what, "the captures asked are not recognised")
            continue
        cap = ("rd", F(("I", caps, idx), "$p"))
        l, phi, c = r
        ty_, entry = L.phis[l][1], L.phis[l][2]
        vec = None
        for b in L.backs:
            tr = round_of(L, b)
            es = asks(tr)
            step = lin_comb(to_lin(b.load(l, ty_)), 1, to_lin(phi), -1)
            R.check("captured", step == (1, ()), what, "does not go on with the next capture", key="captured:step")
            if not es:
                R.check("captured", null(b, cap), what, "a capture is passed without being asked", key="captured:passed")
                continue
            R.check("captured", len(es) == 1 and same(b, es[0][4][0], node), what, "asks for %s" % show(es[0][4][0])[:80], key="captured:node")
            pushes = [e for e in direct(tr, X) if e[0] in ("push", "append") and mention(e[2], es[0][5])]
            if pushes:
                vec = pushes[0][1]
                R.check("captured", len(pushes) == 1, what, "a value is returned twice", key="captured:twice")
            else:
                R.check("captured", any(t[0] == "rd" and t[1][0] == "F" and t[1][2] == "$has" and mention(t, es[0][5]) and null(b, t) for t in b.dom), what, "a value can be left out", key="captured:left out")
        R.check("captured", add(entry, ("i", c)) == I0, what, "begins with capture %s" % show(add(entry, ("i", c))), key="captured:start")
        for x in L.exits:
            R.check("captured", x.le(size, idx), what, "can end before the last capture", key="captured:end")
        for o in L.others:
            if o[0] == "R" and hasattr(o[-1], "le"):
                R.check("captured", o[-1].le(size, add(idx, I1)), what, "returns before the last capture", key="captured:return")
        for k, p in enumerate(X.returns):
            if L.id in spec.loops_in(p.trace):
                if vec is not None and vec[0] == "addr":
                    q = F(vec[1], "$q")
                    if q in L.phis:
                        R.check("captured", mention(p.ret, L.phis[q][0]), "%s, path %d" % (at(f), k + 1), "returns %s" % show(p.ret)[:100], key="captured:returned")
            else:
                R.check("captured", null(p.st, node) or null(p.st, size), "%s, path %d" % (at(f), k + 1), "asks no capture", key="captured:none")
    if not found:
        R.skip(at(f), "no loop over the captures found")
