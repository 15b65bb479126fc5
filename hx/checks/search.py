"""C32: the search visits every list of siblings to its end and keeps every group it finds."""
from .. import spec
from ..dom import *
from ..facts import AnalysisBroken, rel, short
from .safety import program
from .matching import executed, at, TRUST
from .rulematch import (MRO, MRANGE, MRG, RMNR, SMNR, FMR, NEXT, param, arg, ptr_of, nextof, optional, greedy, group_complete)
from .progress import child_of, event_of


def same(s, a, b):
    return a is not None and b is not None and (a == b or s.decide(mk_eq(a, b)) is True)


def null(s, t):
    return t is not None and s.decide(mk_eq(t, I0)) is True


def round_of(L, s):
    """events of a round (without the mark of its beginning); of an unfinished last one up to the end of the loop"""
    tr = trace_list(s.trace, L.start)
    tr = tr[1:] if tr and tr[0] == ("loop", L.id) else tr
    if ("exit", L.id) in tr:
        tr = tr[:tr.index(("exit", L.id))]
    return tr


def direct(tr, X):
    """events outside of inner loops"""
    out, inside = [], []
    for e in tr:
        if e[0] == "loop" and e[1] in X.loops:
            inside.append(e[1])
        elif e[0] == "exit" and e[1] in inside:
            inside = inside[:inside.index(e[1])]
        elif not inside:
            out.append(e)
    return out


def calls(P, tr, name):
    return [e for e in tr if e[0] == "call" and e[1] == name]


def node_arg(P, e, n=0):
    return arg(P, e, "Node", n)


def carrier(X, L, s, t):
    """the loop's variable whose value at the beginning of the round is t"""
    for loc, (phi, ty_, entry) in L.phis.items():
        if phi == t or s.decide(mk_eq(phi, t)) is True:
            return loc, phi, ty_, entry
    return None


def delivered(tr, src, X=None):
    """events that put the contents of the vector src elsewhere: [destination]"""
    out = []
    for e in tr:
        if e[0] in ("push", "append") and e[3] is not None:
            l = e[3]
            if ptr_of(l) == src:
                out.append(e[1])
            elif e[0] == "push":
                # an element of it, within a loop over all of them
                while l[0] in ("F", "I"):
                    inner = l[1]
                    if l[0] == "I" and ptr_of(inner) == src:
                        out.append(e[1])
                        break
                    l = inner
        elif e[0] == "loop" and X is not None and e[1] in X.loops:
            M = X.loops[e[1]]
            if not M.backs:
                continue
            ds = [set(delivered_elements(M, b, src, X)) for b in M.backs if not pointless(M, b, src, X)]
            for d in set.intersection(*ds) if ds else ():
                out.append(d)
    return out


def pointless(M, b, src, X):
    """a round whose inner loops make no round at all: the element is empty"""
    inner = [e[1] for e in round_of(M, b) if e[0] == "loop" and e[1] in X.loops]
    return bool(inner) and not any(X.loops[i].backs for i in inner) and not list(delivered_elements(M, b, src, X))


def delivered_elements(M, b, src, X):
    inside = []
    for e in round_of(M, b):
        if e[0] == "exit" and e[1] in inside:
            inside = inside[:inside.index(e[1])]
        elif e[0] == "loop" and e[1] in X.loops and not inside:
            inside.append(e[1])
            N = X.loops[e[1]]
            ds = [set(delivered_elements(N, c, src, X)) for c in N.backs if not pointless(N, c, src, X)]
            yield from set.intersection(*ds) if ds else ()
        elif inside:
            continue
        elif e[0] in ("push", "append") and e[3] is not None and under_vec(e[3], src):
            yield e[1]


def size_after(X, P, e):
    return list((X.c.post.get(e[5]) or {}).values())


def maybe_found(X, P, e, s):
    z = size_after(X, P, e)
    return not any(s.decide(mk_eq(n, I0)) is True for n in z)


def c32(R):
    P = program()
    R.rule("resumed", "the search for groups begins with the first node of the list, continues where the last group ended and stops only at the end of the list", 4)
    R.rule("kept", "a group that was found is handed on whole, once", 4)
    R.rule("descends", "below every element that has children the search is repeated with its first child; every node of the list is considered", 2)
    R.rule("every node tried", "MatchRuleOnce tries every node of the range in order until one matches", 2)
    R.rule("next node", "within a group the search goes on with the sibling after the node matched, and a group ends behind its last node or at the node of the next group", 4)
    R.rule("bounded", "an optional or repeated rule matches only up to the next node that a mandatory rule of the group matches", 2)
    R.rule("repeated", "a greedy rule that matched is tried again, any other is not", 2)
    R.rule("reported", "every group becomes one result, unless it is empty", 1)
    for name, part in ((SMNR, save), (RMNR, below), (MRO, once), (MRANGE, ranged), (MRG, group)):
        for f in P.byqn(name):
            if not f.get("has_body"):
                continue
            X = executed(R, P, f)
            if X is None:
                continue
            try:
                part(R, P, f, X)
            except AnalysisBroken as ex:
                R.skip(name, str(ex))
    extraction(R, P)
    return R.finish("other", "Relational specification of an arbitrary round of every search loop (what it looks at, how it goes on, when it ends, where its findings go), "
                    "decided on all abstract paths.", TRUST)


def search_loops(R, P, f, X, name, start, startname, rule, dest):
    """loops that look for groups (calls of `name` that return the node to go on with)"""
    seen = set()
    for L in X.loops.values():
        if L.fn["id"] != f["id"] and False:
            continue
        bs = [b for b in L.backs]
        if not any(calls(P, direct(round_of(L, b), X), name) for b in bs):
            continue
        what = "%s, loop at %s" % (at(f), L.line)
        loc = None
        for b in bs:
            cs = calls(P, direct(round_of(L, b), X), name)
            if not cs:
                R.violation("resumed", what, "a round does not look for a group", key="resumed:%s:no search" % short(f["qn"]))
                continue
            e = cs[0]
            c = carrier(X, L, b, node_arg(P, e))
            if c is None:
                R.skip(what, "the node searched from is not a variable of the loop")
                continue
            loc, phi, ty_, entry = c
            if not same(b, arg(P, e, "Rule"), rule):
                R.violation("resumed", what, "looks for another rule: %s" % show(arg(P, e, "Rule"))[:100], key="resumed:%s:rule" % short(f["qn"]))
            after = b.load(loc, ty_)
            last = cs[-1][5]
            R.check("resumed", same(b, after, last), what, "the search goes on at %s instead of where the group ended" % show(after)[:120], key="resumed:%s:next" % short(f["qn"]))
            en = L.entry.load(loc, ty_)
            R.check("resumed", start(L.entry, entry), what, "the search begins at %s instead of %s" % (show(entry)[:100], startname), key="resumed:%s:start" % short(f["qn"]))
        if loc is None:
            continue
        phi = L.phis[loc][0]
        for x in L.exits:
            tr = round_of(L, x)
            cs = calls(P, direct(tr, X), name)
            ends = (cs and null(x, cs[-1][5])) or (not cs and null(x, phi))
            R.check("resumed", bool(ends), what, "the search can end although the list may not be at its end", key="resumed:%s:end" % short(f["qn"]))
        for b in bs + list(L.exits):
            tr = round_of(L, b)
            for e in calls(P, direct(tr, X), name):
                v = arg(P, e, "vector")
                if v == dest:
                    continue
                ds = delivered(tr[tr.index(e):], v, X)
                if not ds and dest is not None and in_place(X, P, L, b, e, v, dest, tr):
                    ds = [dest]
                if maybe_found(X, P, e, b):
                    R.check("kept", len(ds) >= 1, what, "a group that was found can be dropped", key="kept:%s:dropped" % short(f["qn"]))
                R.check("kept", len(ds) <= 1, what, "a group that was found is handed on twice", key="kept:%s:twice" % short(f["qn"]))
                if ds and dest is not None:
                    R.check("kept", ds[0] == dest, what, "a group goes into %s" % show(ds[0])[:80], key="kept:%s:dest" % short(f["qn"]))
        seen.add(L.line)
    return seen


def in_place(X, P, L, s, e, v, dest, tr):
    """the group was found into an element of the result, or exchanged with one, that is still there"""
    D = ("P", dest) if dest[0] != "addr" else dest[1]
    n0, n1 = L.phis.get(F(D, "$n"), (None,))[0], s.load(F(D, "$n"), "unsigned long")
    if n0 is None:
        return False
    if v[0] == "addr" and v[1][0] == "I" and v[1][1] == D:
        return same(s, v[1][2], n0) and s.lt(n0, n1)
    rest = tr[tr.index(e):]
    for y in rest:
        if y[0] == "swap" and v in y[1:]:
            o = y[2] if y[1] == v else y[1]
            return o[0] == "addr" and o[1][0] == "I" and o[1][1] == D and same(s, o[1][2], n0) and s.lt(n0, n1)
    return False


def save(R, P, f, X):
    rule, node, res = param(X, "Rule"), param(X, "Node"), ptr_of(param(X, "vector"))
    el = spec.enum(P, "GumboNodeType", "GUMBO_NODE_ELEMENT")
    lines = search_loops(R, P, f, X, MRG, lambda s, t: same(s, t, node), "the node given", rule, res)
    if not lines:
        R.skip(at(f), "no loop over groups found")
    deep = False
    for L in X.loops.values():
        bs = L.backs
        if not any(calls(P, direct(round_of(L, b), X), SMNR) for b in bs):
            continue
        deep = True
        what = "%s, loop at %s" % (at(f), L.line)
        # the variable that walks along the list
        loc = None
        for b in bs:
            for e in calls(P, direct(round_of(L, b), X), SMNR):
                c = child_of(node_arg(P, e))
                k = carrier(X, L, b, c[0]) if c else None
                if k is not None:
                    loc = k
                    R.check("descends", c[1] == I0 or b.decide(mk_eq(c[1], I0)) is True, what, "begins with child %s" % show(c[1]), key="descends:first child")
                    R.check("descends", same(b, arg(P, e, "Rule"), rule) and arg(P, e, "vector") == res, what, "searches for another rule or into another result", key="descends:rule")
        if loc is None:
            R.skip(what, "the list walked along is not recognised")
            continue
        l, phi, ty_, entry = loc
        R.check("descends", same(L.entry, entry, node), what, "begins with %s" % show(entry)[:100], key="descends:start")
        for b in bs:
            after = b.load(l, ty_)
            R.check("descends", is_next(b, after, phi), what, "goes on with %s" % show(after)[:120], key="descends:next")
            if not calls(P, direct(round_of(L, b), X), SMNR):
                R.check("descends", childless(b, phi, el), what, "an element that may have children is not looked into", key="descends:skipped")
        for x in L.exits:
            tr = round_of(L, x)
            nx = calls(P, direct(tr, X), NEXT)
            end = null(x, phi) or any(null(x, e[5]) and same(x, node_arg(P, e), phi) for e in nx)
            R.check("descends", end, what, "can end before the last node of the list", key="descends:end")
            if not null(x, phi) and not calls(P, direct(tr, X), SMNR):
                R.check("descends", childless(x, phi, el), what, "an element that may have children is not looked into", key="descends:skipped")
    if not deep:
        R.skip(at(f), "no loop over the children's lists found")


def childless(s, n, el):
    t = spec.ty(("rd", F(("P", n), "type")), "GumboNodeType")
    ln = spec.ty(("rd", F(F(F(F(("P", n), "v"), "element"), "children"), "length")), "unsigned int")
    return s.decide(mk_eq(t, ("i", el))) is False or s.decide(mk_eq(ln, I0)) is True


def is_next(s, t, n):
    """t is the sibling after n"""
    for x in [t] + [y for y in s.cls(t) if y != t]:
        if x[0] == "ap" and x[1] == NEXT and same(s, x[2], n):
            return True
    return False


def below(R, P, f, X):
    rule, node, res = param(X, "Rule"), param(X, "Node"), ptr_of(param(X, "vector"))
    child = spec.ty(("rd", F(("P", rule), "first_child_", "$p")), "hext::Rule *")

    def first(s, t):
        c = child_of(t)
        return c is not None and same(s, c[0], node) and (c[1] == I0 or s.decide(mk_eq(c[1], I0)) is True)
    if not search_loops(R, P, f, X, MRG, first, "the first child", child, None):
        R.skip(at(f), "no loop over the groups of child rules found")
    nested = F(("P", rule), "nested_")
    for L in X.loops.values():
        if not any(calls(P, direct(round_of(L, b), X), SMNR) for b in L.backs):
            continue
        what = "%s, loop at %s" % (at(f), L.line)
        for b in L.backs:
            tr = round_of(L, b)
            cs = calls(P, direct(tr, X), SMNR)
            if not cs:
                R.violation("descends", what, "a nested rule is passed without being searched for", key="descends:nested skipped")
            for e in cs:
                R.check("descends", first(b, node_arg(P, e)), what, "the search for nested rules begins at %s" % show(node_arg(P, e))[:100], key="descends:nested start")
                v = arg(P, e, "vector")
                ds = delivered(tr[tr.index(e):], v, X)
                if maybe_found(X, P, e, b) and v != res:
                    inner = [x for x in tr[tr.index(e):] if x[0] == "loop" and x[1] in X.loops]
                    empty = [x for x in inner if not X.loops[x[1]].backs]
                    if not ds and inner and len(empty) == len(inner):
                        continue  # a loop that makes no round: nothing was found
                    part = [x for x in direct(tr[tr.index(e):], X) if x[0] in ("push", "append") and x[3] is not None and under_vec(x[3], v)]
                    R.check("kept", len(ds) >= 1 and not part, what, "groups of a nested rule can be dropped", key="kept:nested dropped")
    # what was found reaches the caller
    for k, p in enumerate(X.returns):
        if p.st.decide(p.ret) is not True:
            continue
        local = receivers(X, p.trace)
        for v in sorted(local - {res}, key=repr):
            if X_local(X, v):
                R.check("kept", p.trace and res in delivered(p.trace, v, X), "%s, path %d" % (at(f), k + 1), "what was found below is not handed on", key="kept:below")


def under_vec(l, v):
    while l[0] in ("F", "I"):
        if l[0] == "I" and ptr_of(l[1]) == v:
            return True
        l = l[1]
    return False


def receivers(X, tr):
    """vectors outside of loops that something found was put into"""
    out = set()
    for e in tr:
        if e[0] == "loop" and e[1] in X.loops:
            M = X.loops[e[1]]
            for b in M.backs:
                for x in receivers(X, round_of(M, b)):
                    l = x[1] if x[0] == "addr" else None
                    # new in every round: of no interest outside
                    if l is None or any(is_under(k, l) for d in (M.entry.store, M.entry.alias) for k in d):
                        out.add(x)
        elif e[0] in ("push", "append"):
            out.add(e[1])
    return out


def X_local(X, v):
    return v[0] == "addr" and v[1][0] == "V"


def once(R, P, f, X):
    rule, begin, end = param(X, "Rule"), param(X, "Node"), param(X, "Node", 1)
    n = 0
    for L in X.loops.values():
        if not any(calls(P, direct(round_of(L, b), X), RMNR) for b in L.backs):
            continue
        n += 1
        what = "%s, loop at %s" % (at(f), L.line)
        loc = None
        for b in L.backs:
            for e in calls(P, direct(round_of(L, b), X), RMNR):
                loc = loc or carrier(X, L, b, node_arg(P, e))
        if loc is None:
            R.skip(what, "the nodes tried are not recognised")
            continue
        l, phi, ty_, entry = loc
        R.check("every node tried", same(L.entry, entry, begin), what, "begins with %s" % show(entry)[:80], key="every node tried:start")
        for b in L.backs:
            cs = [e for e in calls(P, direct(round_of(L, b), X), RMNR) if same(b, node_arg(P, e), phi)]
            R.check("every node tried", bool(cs), what, "a node is passed without being tried", key="every node tried:skipped")
            for e in cs:
                R.check("every node tried", b.decide(e[5]) is not True, what, "goes on although the node matched", key="every node tried:matched")
                R.check("every node tried", same(b, arg(P, e, "Rule"), rule), what, "tries %s" % show(arg(P, e, "Rule"))[:80], key="every node tried:rule")
            after = b.load(l, ty_)
            R.check("every node tried", is_next(b, after, phi), what, "goes on with %s" % show(after)[:120], key="every node tried:next")
        for x in L.exits:
            tr = round_of(L, x)
            cs = calls(P, direct(tr, X), RMNR)
            good = null(x, phi) or same(x, phi, end) or any(x.decide(e[5]) is True for e in cs) or \
                any(null(x, e[5]) or same(x, e[5], end) for e in calls(P, direct(tr, X), NEXT))
            R.check("every node tried", good, what, "can end before the range does", key="every node tried:end")
    if not n:
        R.skip(at(f), "no loop over nodes found")


def matched(s, e, end):
    """did this call of MatchRuleOnce find a node? (True/False/None)"""
    m = e[5]
    if null(s, m) or same(s, m, end):
        return False
    if s.decide(mk_eq(m, I0)) is False and (null(s, end) or s.decide(mk_eq(m, end)) is False):
        return True
    return None


def ranged(R, P, f, X):
    n_begin, n_end = param(X, "Node"), param(X, "Node", 1)
    n = 0
    for L in X.loops.values():
        if not any(calls(P, direct(round_of(L, b), X), MRO) for b in L.backs):
            continue
        n += 1
        what = "%s, loop at %s" % (at(f), L.line)
        rl = nl = None
        for b in L.backs:
            for e in calls(P, direct(round_of(L, b), X), MRO):
                rl = rl or carrier(X, L, b, arg(P, e, "Rule"))
                nl = nl or carrier(X, L, b, node_arg(P, e))
        if rl is None or nl is None:
            R.skip(what, "rules or nodes of the range are not recognised")
            continue
        R.check("next node", same(L.entry, nl[3], n_begin), what, "begins with %s" % show(nl[3])[:80], key="next node:range start")
        ret = [(l, v) for l, v in L.phis.items() if is_ptr(v[1] or "") and "Node" in v[1] and l != nl[0]]
        for b in L.backs:
            cs = calls(P, direct(round_of(L, b), X), MRO)
            if len(cs) != 1:
                R.skip(what, "%d attempts in a round" % len(cs))
                continue
            e = cs[0]
            m = matched(b, e, n_end)
            R.check("bounded", same(b, node_arg(P, e, 1), n_end), what, "looks for a match up to %s" % show(node_arg(P, e, 1))[:80], key="bounded:range")
            an, ar = b.load(nl[0], nl[2]), b.load(rl[0], rl[2])
            if m is True:
                R.check("next node", is_next(b, an, e[5]), what, "after a match the range goes on with %s" % show(an)[:100], key="next node:range after match")
            elif m is False:
                R.check("next node", same(b, an, nl[1]), what, "without a match the range goes on with %s" % show(an)[:100], key="next node:range without match")
            stays, goes = same(b, ar, rl[1]), nextof(ar) is not None and same(b, nextof(ar), rl[1])
            g = greedy(b, rl[1])
            if stays or goes:
                if stays:
                    R.check("repeated", m is not False and g is not False, what, "a rule is tried again although it did not match or is not greedy", key="repeated:range again")
                else:
                    R.check("repeated", not (m is True and g is True), what, "a greedy rule that matched is not tried again", key="repeated:range once")
        # the value returned is the last node matched
        for p in X.returns:
            for l, (phi, ty_, entry) in ret:
                if p.ret != phi:
                    continue
                for b in L.backs:
                    cs = calls(P, direct(round_of(L, b), X), MRO)
                    if len(cs) == 1:
                        a = b.load(l, ty_)
                        m = matched(b, cs[0], n_end)
                        if m is True:
                            R.check("next node", same(b, a, cs[0][5]), what, "the last match is not the node returned", key="next node:last match")
                        elif m is False:
                            R.check("next node", same(b, a, phi), what, "after a later rule without a match the node of the last match is not returned any more",
                                    key="next node:MatchRange forgets its last match")
    if not n:
        R.skip(at(f), "no loop over rules found")


def group(R, P, f, X):
    first, node, res = param(X, "Rule"), param(X, "Node"), ptr_of(param(X, "vector"))
    done = set()
    for L in X.loops.values():
        rl = nl = None
        for b in L.backs:
            for e in calls(P, direct(round_of(L, b), X), MRO):
                nl = nl or carrier(X, L, b, node_arg(P, e))
                rl = rl or carrier(X, L, b, arg(P, e, "Rule"))
        if nl is None or rl is None:
            continue
        what = "%s, loop at %s" % (at(f), L.line)
        R.check("next node", same(L.entry, nl[3], node), what, "begins with %s" % show(nl[3])[:80], key="next node:group start")
        for b in L.backs:
            tr = direct(round_of(L, b), X)
            an, ar = b.load(nl[0], nl[2]), b.load(rl[0], rl[2])
            ms = [e for e in calls(P, tr, MRO)]
            ok = same(b, an, nl[1]) and not [e for e in ms if matched(b, e, I0)] or any(is_next(b, an, e[5]) for e in ms) or null(b, an)
            R.check("next node", ok, what, "the group goes on with %s" % show(an)[:120], key="next node:group")
            # plain mandatory rule
            if same(b, ar, rl[1]):
                R.check("repeated", greedy(b, rl[1]) is not False, what, "a rule that is not greedy is tried again", key="repeated:group again")
            elif optional(b, rl[1]) is False and not calls(P, tr, MRANGE) and nextof(ar) is not None and same(b, nextof(ar), rl[1]) and ms:
                R.check("repeated", greedy(b, rl[1]) is not True, what, "a greedy rule that matched is not tried again", key="repeated:group once")
        done.add((rl[1], nl[1]))
        for b in L.backs:
            reach(R, P, b, direct(round_of(L, b), X), what, first, done)
    if not done:
        R.skip(at(f), "no loop over rules found")
    for k, p in enumerate(X.returns):
        s, what = p.st, "%s, path %d" % (at(f), k + 1)
        tr = p.trace
        ms, rs = p.calls(MRO), p.calls(MRANGE)
        fm = p.calls(FMR)
        # where the next group begins
        if null(s, p.ret):
            reason = null(s, first) or null(s, node) or any(null(s, e[5]) for e in ms) or any(null(s, e[5]) for e in rs) or \
                any(null(s, e[5]) for e in p.calls(NEXT)) or any(null(s, n) for _, n in done) or \
                any(r is not None and s.nonnull(r) for r in rules_left(X, s)) or \
                any(s.nonnull(e[5]) and null(s, e[4][-1]) and not [y for y in tr[tr.index(e):] if y[0] == "call" and y[1] in (MRO, MRANGE)] for e in fm)
            R.check("next node", reason, what, "the search ends although there may be more nodes", key="next node:gives up")
        else:
            t = p.ret
            ok = None
            for x in [t] + list(s.cls(t)):
                if x[0] == "ap" and x[1] == NEXT:
                    # behind a node that this group has used
                    ok = any(same(s, x[2], e[5]) for e in rs) or any(same(s, x[2], e[5]) and used_by(s, tr, e, res, X, P) for e in ms)
                elif any(x == n for _, n in done):
                    ok = True
                elif any(x == e[5] for e in ms):
                    e = [e for e in ms if x == e[5]][0]
                    ok = not used_by(s, tr, e, res, X, P)
                elif any(x == e[5] for e in rs):
                    ok = False
                if ok is not None:
                    break
            if ok is None:
                R.skip(what, "where the next group begins is not evident: %s" % show(t)[:100])
            else:
                R.check("next node", ok, what, "the next group begins with %s, which this group may have used" % show(t)[:100], key="next node:next group")
        reach(R, P, s, tr, what, first, done)
        # complete groups are handed on
        got = [v for v in receivers(X, tr) if X_local(X, v)]
        rec = [e for e in tr if e[0] == "push"] or [L for L in spec.loops_in(tr)]
        for v in got:
            if res in delivered(tr, v, X):
                continue
            lookahead = all(e[1] == MRO for e in tr if e[0] == "call" and e[1] in (MRO, MRANGE) and arg(P, e, "vector") == v) and \
                not any(e[0] == "push" and e[1] == v for e in tr)
            if lookahead:
                continue
            failed = any(null(s, e[5]) for e in ms) or any(r is not None and s.nonnull(r) for r in rules_left(X, s))
            R.check("kept", failed, what, "a complete group is not handed on", key="kept:group")


def reach(R, P, s, tr, what, first, done):
    """how far an optional rule reaches"""
    for e in calls(P, tr, MRANGE):
        end = node_arg(P, e, 1)
        before = tr[:tr.index(e)]
        if null(s, end):
            # to the end of the list: there must be no mandatory rule before and behind it, or none that matches any more
            b1 = [x for x in before if x[0] == "call" and x[1] == FMR]
            wrapped = [x for x in b1 if same(s, arg(P, x, "Rule"), first)]
            unmatched = [x for x in before if x[0] == "call" and x[1] == MRO and null(s, x[5])]
            stops = [x for x in before if x[0] == "call" and x[1] == MRO and not null(s, x[5]) and any(same(s, y[5], arg(P, x, "Rule")) for y in b1)
                     and any(same(s, node_arg(P, x), n) or same(s, node_arg(P, x), node_arg(P, e)) for _, n in done)]
            R.check("bounded", not stops, what, "an optional rule is matched beyond the node of the next mandatory rule", key="bounded:beyond")
            R.check("bounded", bool(wrapped) or bool(unmatched), what, "an optional rule is matched up to the end of the list without a look at the mandatory rules of the group", key="bounded:end")
        else:
            src = [x for x in before if x[0] == "call" and x[1] == MRO and same(s, x[5], end)]
            R.check("bounded", bool(src), what, "an optional rule is matched up to %s" % show(end)[:80], key="bounded:stop")
            for x in src:
                r = arg(P, x, "Rule")
                R.check("bounded", any(same(s, y[5], r) for y in before if y[0] == "call" and y[1] == FMR), what, "the node that ends the range is not one of a mandatory rule", key="bounded:mandatory")


def used_by(s, tr, e, res, X, P):
    """is the node this call of MatchRuleOnce found part of the group?"""
    return arg(P, e, "vector") == res or res in delivered(tr, arg(P, e, "vector"), X) or \
        any(y[0] == "push" and y[2][:2] == ("ap", "pair") and same(s, y[2][3], e[5]) for y in tr)


def rules_left(X, s):
    """values of the rule pointers of the group at the end of the path"""
    for k, v in s.store.items():
        if "hext::Rule" in TYPES.get(v, "") and X.I.LT.get(k, "").startswith("const hext::Rule *") and k[0] == "V":
            if any(k in L.phis for L in X.loops.values()):
                yield v


def extraction(R, P):
    for f in P.byqn("hext::Rule::extract"):
        if not f.get("has_body") or not any("Node" in p["t"] for p in f["params"]):
            continue
        X = executed(R, P, f)
        if X is None:
            continue
        for k, p in enumerate(X.returns):
            for lid in spec.loops_in(p.trace):
                if lid in X.loops and ("exit", lid) not in p.trace:
                    R.violation("reported", "%s, path %d" % (at(f), k + 1), "returns before all groups were turned into results", key="reported:return")
        for L in X.loops.values():
            what = "%s, loop at %s" % (at(f), L.line)
            deep = [b for b in L.backs if captures(round_of(L, b), X)]
            push = [b for b in L.backs if any(e[0] == "push" for e in direct(round_of(L, b), X))]
            if deep:
                for x in L.exits:
                    R.check("reported", not captures(round_of(L, x), X), what, "can end before the last pair of the group", key="reported:pair end")
                for b in L.backs:
                    tr = round_of(L, b)
                    cs = captures(tr, X)
                    if not cs:
                        R.check("reported", no_captures(b), what, "a pair of the group is passed without its captures", key="reported:pair")
                        continue
                    c = cs[0]
                    rest = tr[tr.index(c) + 1:]
                    used = any(e[0] == "call" and any(e[1].endswith(n) for n in ("::insert", "::emplace", "::merge", "::emplace_hint")) for e in rest) or \
                        any(e[0] == "loop" for e in rest)
                    if not used:
                        none = any(b.decide(mk_eq(t, I0)) is True for t in b.dom if mentions(t, c[5])) or any(b.decide(mk_eq(t, I0)) is True for t in size_terms(b, c[5]))
                        R.check("reported", none, what, "what was captured does not become part of the result", key="reported:values")
                    else:
                        R.ok("reported", what)
            if push:
                for x in L.exits:
                    R.check("reported", not any(e[0] == "push" for e in direct(round_of(L, x), X)), what, "can end before the last group", key="reported:group end")
                for b in L.backs:
                    if b in push:
                        n = len([e for e in direct(round_of(L, b), X) if e[0] == "push"])
                        R.check("reported", n == 1, what, "a group becomes %d results" % n, key="reported:twice")
                        continue
                    tr = round_of(L, b)
                    empty = any(e[0] == "call" and (e[1].endswith("map::empty") and b.decide(e[5]) is True or e[1].endswith("map::size") and null(b, e[5])) for e in tr) or \
                        any(t[0] == "rd" and t[1][0] == "F" and t[1][2] == "$n" and null(b, t) for t in b.dom)
                    R.check("reported", empty, what, "a group that has captured something can be left out", key="reported:left out")


def captures(tr, X):
    return [e for e in direct(tr, X) if e[0] == "call" and e[1] == "hext::Rule::capture"]


def mentions(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t)


def size_terms(s, x):
    for l, v in s.store.items():
        if isinstance(v, tuple) and mentions(v, x):
            yield v


def no_captures(s):
    """the rule of this pair has no captures"""
    for t in s.dom:
        if t[0] == "rd" and t[1][0] == "F" and t[1][2] == "$n" and t[1][1][0] == "F" and t[1][1][2] == "captures_" and s.decide(mk_eq(t, I0)) is True:
            return True
    return False
