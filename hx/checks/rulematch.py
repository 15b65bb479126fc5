"""RuleMatching.cpp: C05 transactional matching, C07 search budget, C31 required descendants."""
from .. import interp, spec, models
from ..dom import *
from ..facts import AnalysisBroken, rel, short, walk
from .safety import program
from .matching import executed, at, facts_of, TRUST

MRO, MRANGE, MRG = "hext::MatchRuleOnce", "hext::MatchRange", "hext::MatchRuleGroup"
RMNR, SMNR = "hext::RuleMatchesNodeRecursive", "hext::SaveMatchingNodesRecursive"
FMR, MATCHES, NEXT = "hext::FindMandatoryRule", "hext::Rule::matches", "hext::NextNode"
CLOSED = (MRANGE, MRG, SMNR)
ALL = (SMNR, MRG, RMNR, MRO, MRANGE)


def ptr_of(loc):
    return loc[1] if loc[0] == "P" else ("addr", loc)


def param(X, typ, n=0):
    """n-th parameter of this type"""
    k = 0
    for i, p in enumerate(X.f["params"]):
        if typ in p["t"] and (is_ptr(p["t"]) or is_ref(p["t"])) and ("vector" in p["t"]) == ("vector" in typ):
            if k == n:
                return X.params[i]
            k += 1
    raise AnalysisBroken("%s has no parameter of type %s" % (X.f["qn"], typ))


def arg(P, e, typ, n=0):
    """argument of a call event by parameter type"""
    f = P.fn[e[2]]
    k = 0
    for p, a in zip(f["params"], e[4]):
        if typ in p["t"] and ("vector" in p["t"]) == ("vector" in typ):
            if k == n:
                return a
            k += 1
    raise AnalysisBroken("%s has no parameter of type %s" % (f["qn"], typ))


def segments(X, tr):
    """splits a trace: [('ev', event) | ('loop', Loop)]; what follows a loop up to its end is its last, unfinished round"""
    return [("loop", X.loops[e[1]]) if e[0] == "loop" and e[1] in X.loops else ("ev", e) for e in tr]


class Open:
    """which vectors hold captures from below a node whose own match is not (yet) recorded"""

    def __init__(self, X, P):
        self.X, self.P = X, P
        self.phantom = []
        self.contrib = set()     # vectors that may have received something

    def call(self, e, s, pend):
        n = e[1]
        if n == MRO:
            v, r, m = arg(self.P, e, "vector"), arg(self.P, e, "Rule"), e[5]
            end = arg(self.P, e, "Node", 1)
            if s.decide(mk_eq(m, I0)) is True or s.decide(mk_eq(m, end)) is True:
                return pend
            self.contrib.add(v)
            return pend | {(v, r, m, s.decide(mk_eq(m, I0)) is False and s.decide(mk_eq(m, end)) is False)}
        if n == RMNR:
            v, r, nd = arg(self.P, e, "vector"), arg(self.P, e, "Rule"), arg(self.P, e, "Node")
            if s.decide(e[5]) is False:
                return pend
            self.contrib.add(v)
            return pend | {(v, r, nd, s.decide(e[5]) is True)}
        if n in CLOSED:
            self.contrib.add(arg(self.P, e, "vector"))
        return pend

    def run(self, tr, s, pend):
        """tr: events of a path on which s holds at the end"""
        for k, e in segments(self.X, tr):
            if k == "loop":
                new = set()
                for b in spec.rounds(e, s):
                    sub = trace_list(b.trace, e.start)[1:]
                    r = self.run(sub, b, frozenset(pend))
                    new |= {x for x in r if not self.local(x[0], e)}
                pend = frozenset(pend) | new
                continue
            if e[0] == "call":
                pend = self.call(e, s, pend)
            elif e[0] == "push":
                v, val = e[1], e[2]
                if val[:2] == ("ap", "pair") and same_pair(val[2], val[3]):
                    # an element of another vector
                    self.contrib.add(v)
                    src = e[3]
                    while src is not None and src[0] in ("F", "I") and src[0] != "I":
                        src = src[1]
                    src = ptr_of(src[1]) if src is not None and src[0] == "I" else None
                    pend = pend | {(v,) + x[1:] for x in pend if src is None or x[0] == src}
                elif val[:2] == ("ap", "pair"):
                    self.contrib.add(v)
                    hit = {x for x in pend if x[0] == v and s.decide(mk_eq(x[1], val[2])) is True and s.decide(mk_eq(x[2], val[3])) is True}
                    if not hit or not any(x[3] for x in hit):
                        self.phantom.append((v, val))
                    pend = pend - hit
                elif e[3] is not None:
                    self.contrib.add(v)
                    pend = pend | {(v,) + x[1:] for x in pend if x[0] == ptr_of(e[3])}
            elif e[0] == "append":
                self.contrib.add(e[1])
                pend = pend | {(e[1],) + x[1:] for x in pend if x[0] == ptr_of(e[3])}
        return frozenset(pend)

    def local(self, v, L):
        """is the vector created anew in every round?"""
        if v[0] != "addr":
            return False
        return not any(is_under(k, v[1]) for d in (L.entry.store, L.entry.alias) for k in d)


def c05(R):
    P = program()
    R.rule("no partial captures", "on every path, captures from below a node reach the result only together with the pair of the rule and node whose descendants they are", 8)
    R.rule("nothing on failure", "on every path on which a rule or group did not match, the result received nothing", 6)
    R.rule("only real matches", "only pairs of a rule and the node it was found to match are recorded", 4)
    R.rule("complete groups", "a group's matches reach the result only on paths on which no mandatory rule is left", 3)
    R.rule("one result per group", "Rule::extract builds every result from the matches of one group only, using the capture of the rule that matched and the node it matched", 2)
    for name in ALL:
        for f in P.byqn(name):
            if not f.get("has_body"):
                continue
            X = executed(R, P, f)
            if X is None:
                continue
            try:
                transactional(R, P, f, X, name)
            except AnalysisBroken as ex:
                R.skip(name, str(ex))
    extraction(R, P)
    return R.finish("other", "Typestate on all abstract paths (with loops) of the matching functions: which vectors hold captures whose own node is not recorded. "
                    "Each function is checked against the contract its callers rely on.", TRUST)


def transactional(R, P, f, X, name):
    res = ptr_of(param(X, "vector"))
    for k, p in enumerate(X.returns):
        s = p.st
        what = "%s, path %d" % (at(f), k + 1)
        A = Open(X, P)
        pend = A.run(p.trace, s, frozenset())
        mine = {x for x in pend if x[0] == res}
        for v, val in A.phantom:
            R.violation("only real matches", what, "%s is recorded without having been matched" % show(val)[:160])
        if not A.phantom:
            R.ok("only real matches", what)
        if name == MRO:
            rule, end = param(X, "Rule"), param(X, "Node", 1)
            none = s.decide(mk_eq(p.ret, end)) is True or s.decide(mk_eq(p.ret, I0)) is True
            if none:
                R.check("nothing on failure", not mine, what, "no node is returned, but captures below %s may be in the result" % [show(x[2])[:60] for x in mine][:2])
            else:
                good = len(mine) >= 1 and all(s.decide(mk_eq(x[1], rule)) is True and s.decide(mk_eq(x[2], p.ret)) is True for x in mine)
                R.check("no partial captures", good, what, "returns %s, but matched %s" % (show(p.ret)[:80], [show(x[2])[:60] for x in mine][:3]))
            continue
        R.check("no partial captures", not mine, what, "captures from below %s can be in the result without their own match" % [show(x[2])[:80] for x in mine][:2])
        if name == RMNR:
            if s.decide(p.ret) is not True:
                R.check("nothing on failure", res not in A.contrib, what, "the result may have changed although the rule does not match")
        if name == MRG and res in A.contrib:
            R.check("complete groups", group_complete(X, P, p), what, "the result receives matches although mandatory rules may be left")
            direct = [e for e in p.trace if e[0] == "call" and e[1] in ALL and arg(P, e, "vector") == res]
            R.check("nothing on failure", not direct, what, "%s writes into the result before the group is complete" % (direct and short(direct[0][1])))


def group_complete(X, P, p):
    """is it established that no mandatory rule remains?"""
    s = p.st
    for lid in spec.loops_in(p.trace):
        L = X.loops.get(lid)
        for loc, (phi, t, entry) in (L.phis if L else {}).items():
            if t and "hext::Rule" in t and is_ptr(t) and s.decide(mk_eq(phi, I0)) is True:
                return True
    for e in p.calls(FMR):
        if s.decide(mk_eq(e[5], I0)) is True and s.decide(mk_eq(arg(P, e, "Rule", 1), I0)) is True:
            return True
    # the last rule reached is none
    for k, v in s.store.items():
        if "hext::Rule" in TYPES.get(v, "") and s.decide(mk_eq(v, I0)) is True and X.I.LT.get(k, "").startswith("const hext::Rule *"):
            return True
    return False


def extraction(R, P):
    for f in P.byqn("hext::Rule::extract"):
        if not f.get("has_body") or not any("Node" in p["t"] for p in f["params"]):
            continue
        X = executed(R, P, f)
        if X is None:
            continue
        this = ("ap", "this")
        node = param(X, "Node")
        for p in X.returns:
            cs = p.calls(SMNR)
            ok = len(cs) == 1 and arg(P, cs[0], "Rule") == this and arg(P, cs[0], "Node") == node
            R.check("one result per group", ok, "%s: search" % at(f), "does not search once for this rule from the given node")
        mn = None
        for p in X.returns:
            for e in p.calls(SMNR):
                mn = e[5]
        seen = set()
        for L in X.loops.values():
            for b in L.backs:
                tr = trace_list(b.trace, L.start)
                for e in tr:
                    if e[0] == "call" and e[1] == "hext::Rule::capture":
                        r, n = e[3], (e[4] or (None,))[0]
                        ok = same_pair(r, n)
                        R.check("one result per group", ok, "%s: capture" % at(f), "captures %s with the rule of %s" % (show(n)[:80], show(r)[:80]))
                    if e[0] == "push" and e[3] is not None:
                        # the result pushed must be new in this round
                        fresh_ = not any(is_under(k, e[3]) for d in (L.entry.store, L.entry.alias) for k in d)
                        emptyb = L.head.decide(mk_eq(spec.ty(L.head.load(F(e[3], "$n")), "unsigned long"), I0)) is True
                        R.check("one result per group", fresh_ or emptyb, "%s: result" % at(f), "a result may still hold values of an earlier group when it is filled")


def same_pair(r, n):
    if r is None or n is None or r[0] != "rd" or n[0] != "rd":
        return False
    a, b = r[1], n[1]
    return a[0] == "F" and b[0] == "F" and a[2] == "first" and b[2] == "second" and a[1] == b[1]


# ------------------------------------------------------------------------ C31
def rule_ptr(loc_or_term):
    return ("rd", F(("P", loc_or_term), "next_", "$p"))


def nextof(t):
    """x if t is x->next_"""
    if t[0] == "rd" and t[1][0] == "F" and t[1][2] == "$p" and t[1][1][0] == "F" and t[1][1][2] == "next_" and t[1][1][1][0] == "P":
        return t[1][1][1][1]
    return None


def optional(s, r):
    return s.decide(spec.ty(("rd", F(("P", r), "is_optional_")), "bool"))


def greedy(s, r):
    return s.decide(spec.ty(("rd", F(("P", r), "is_greedy_")), "bool"))


def recorded(s, events, r):
    return any(e[0] == "push" and e[2][:2] == ("ap", "pair") and s.decide(mk_eq(e[2][2], r)) is True for e in events)


def was_recorded(s, r):
    """the rule is the one of the last recorded pair"""
    for x in s.cls(r):
        if x[0] == "rd" and x[1][0] == "F" and x[1][2] == "first":
            return True
    for a, b in s.eqs.items():
        if r in b and any(x[0] == "rd" and x[1][0] == "F" and x[1][2] == "first" for x in b):
            return True
    return False


def may_advance(P, s, events, frm, to):
    """may the current rule of a group go from frm to to, given what happened?"""
    if s.decide(mk_eq(frm, to)) is True:
        return True
    x = nextof(to)
    if x is None:
        return s.decide(mk_eq(to, I0)) is True and False

    def done(r):
        return optional(s, r) is True or recorded(s, events, r) or greedy(s, r) is True and was_recorded(s, r)
    if s.decide(mk_eq(x, frm)) is True:
        return done(frm)
    for e in events:
        if e[0] == "call" and e[1] == FMR and s.decide(mk_eq(e[5], x)) is True:
            start = nextof(arg(P, e, "Rule"))
            if start is not None and s.decide(mk_eq(start, frm)) is True:
                return done(frm) and (recorded(s, events, x) or optional(s, x) is True)
            if s.decide(mk_eq(arg(P, e, "Rule"), frm)) is True:
                return recorded(s, events, x)
    # several steps over optional rules
    n = 0
    while x is not None and n < 8:
        if not done(x):
            return False
        if s.decide(mk_eq(x, frm)) is True:
            return True
        x, n = nextof(x), n + 1
    return False


def sizes(X, e, s):
    """size of the vector given to a call, after the call"""
    return list((X.c.post.get(e[5]) or {}).values())


def searched(P, s, child):
    """does the group have a mandatory rule, as far as a search on this path tells?"""
    for e in trace_list(s.trace):
        if e[0] == "call" and e[1] == FMR and s.decide(mk_eq(arg(P, e, "Rule"), child)) is True and s.decide(mk_eq(arg(P, e, "Rule", 1), I0)) is True:
            z = s.decide(mk_eq(e[5], I0))
            if z is not None:
                return not z
    return None


def group_found(X, P, s, events, child):
    """a call matched the group of `child`, or that group is all optional"""
    for e in events:
        if e[0] != "call":
            continue
        if e[1] in (MRG, SMNR) and s.decide(mk_eq(arg(P, e, "Rule"), child)) is True:
            if any(s.decide(mk_eq(n, I0)) is False for n in sizes(X, e, s)):
                return True
    return searched(P, s, child) is False


def group_missing(X, P, s, events, child):
    a = b = False
    for e in events:
        if e[0] != "call":
            continue
        if e[1] in (MRG, SMNR) and s.decide(mk_eq(arg(P, e, "Rule"), child)) is True:
            a = a or any(s.decide(mk_eq(n, I0)) is True for n in sizes(X, e, s))
    return a and searched(P, s, child) is True


def child_found(X, P, s, child):
    tr = trace_list(s.trace)
    if group_found(X, P, s, tr, child):
        return True
    for lid in spec.loops_in(tr):
        L = X.loops.get(lid)
        for loc, (phi, t, entry) in (L.phis if L else {}).items():
            v = spec.fixed(s, phi)
            if v is None and s.nonnull(phi):
                # a counter or pointer that is not zero any more
                if spec.fixed(L.entry, entry) == 0:
                    ok = True
                    for b in L.backs:
                        x = spec.assume_all(b, [(b.load(loc, t), "!", 0), (phi, "=", 0)])
                        ok = ok and (x is None or group_found(X, P, x, trace_list(x.trace, L.start), child))
                    if ok:
                        return True
                continue
            if v is None or spec.fixed(L.entry, entry) == v:
                continue
            if spec.fixed(L.entry, entry) is None:
                # it may have had this value before the loop
                x = spec.assume_all(s, [(entry, "=", v)])
                if t != "bool" or x is not None and not group_found(X, P, x, tr[:tr.index(("loop", lid))], child):
                    continue
            ss = spec.introducing(L, loc, v)
            if ss and all(group_found(X, P, b, trace_list(b.trace, L.start), child) for b in ss):
                return True
    return False


def settled(X, s):
    """a flag that a loop only ever sets the other way had this value before the loop"""
    for lid in spec.loops_in(trace_list(s.trace)):
        L = X.loops.get(lid)
        for loc, (phi, t, entry) in (L.phis if L else {}).items():
            v = spec.fixed(s, phi)
            if t != "bool" or v is None or spec.fixed(s, entry) is not None:
                continue
            if all(b.load(loc, t) == phi or spec.fixed(b, b.load(loc, t)) == 1 - v for b in L.backs):
                x = spec.assume_all(s, [(entry, "=", v)])
                if x is not None:
                    s = x
    return s


def child_missing(X, P, s, child):
    """every attempt to match the group failed, and it has a mandatory rule"""
    tr = trace_list(s.trace)
    for lid in spec.loops_in(tr):
        L = X.loops.get(lid)
        if L is None:
            continue
        i = tr.index(("loop", lid))
        rest = tr[i + 1:]
        if not any(e[0] == "call" and e[1] == MRG and s.decide(mk_eq(arg(P, e, "Rule"), child)) is True
                   for b in L.backs for e in trace_list(b.trace, L.start)) and not any(e[0] == "call" and e[1] == MRG for e in rest):
            continue
        bs = spec.rounds(L, s)
        inner = [e for e in rest[:rest.index(("exit", lid))]] if ("exit", lid) in rest else rest
        if any(e[0] == "call" and e[1] == MRG for e in inner) and not group_missing(X, P, s, inner, child):
            return False
        # a later look for a mandatory rule counts for all rounds
        mand = any(e[0] == "call" and e[1] == FMR and s.decide(mk_eq(arg(P, e, "Rule"), child)) is True and s.decide(mk_eq(e[5], I0)) is False for e in tr)
        for b in bs:
            ev = trace_list(b.trace, L.start)
            if not group_missing(X, P, b, ev, child):
                if not (mand and any(e[0] == "call" and e[1] == MRG and any(b.decide(mk_eq(n, I0)) is True for n in sizes(X, e, b)) for e in ev)):
                    return False
        return True
    # without a loop
    return group_missing(X, P, s, tr, child)


def c31(R):
    P = program()
    R.rule("descendants required", "every path of RuleMatchesNodeRecursive that returns true knows that the node matches and that the group of children and each nested group was found or is optional", 1)
    R.rule("nothing else required", "every path that returns false knows that the node does not match, has no children, or that a group with a mandatory rule was not found", 3)
    R.rule("mandatory rules not skipped", "a group goes on to a later rule only after recording the current one, or when that is optional", 3)
    R.rule("mandatory rule search", "FindMandatoryRule returns the first rule that is not optional, and the end only if all are optional", 2)
    R.rule("found means matched", "SaveMatchingNodesRecursive adds only groups with at least one match", 1)
    el = spec.enum(P, "GumboNodeType", "GUMBO_NODE_ELEMENT")
    for f in P.byqn(RMNR):
        X = executed(R, P, f)
        if X is None:
            continue
        rule, node = param(X, "Rule"), param(X, "Node")
        child = spec.ty(("rd", F(("P", rule), "first_child_", "$p")), "hext::Rule *")
        nested = F(("P", rule), "nested_")
        nn = spec.ty(("rd", F(nested, "$n")), "unsigned long")
        ntype = spec.ty(("rd", F(("P", node), "type")), "GumboNodeType")
        nchild = spec.ty(("rd", F(("P", node), "v", "element", "children", "length")), "unsigned int")
        k = 0
        for p in X.returns:
            for truth in (True, False):
                s = p.with_((p.ret, truth))
                if s is None:
                    continue
                s = settled(X, s)
                k += 1
                what = "%s, path %d returning %s" % (at(f), k, truth)
                m = [e for e in p.trace if e[0] == "call" and e[1] == MATCHES and e[3] == rule and e[4] and e[4][0] == node]
                if truth:
                    why = ""
                    if not any(s.decide(e[5]) is True for e in m):
                        why = "the node may not match the rule"
                    elif s.decide(mk_eq(child, I0)) is not True and not child_found(X, P, s, child):
                        why = "the children may not have been found"
                    elif s.decide(mk_eq(nn, I0)) is not True:
                        why = nested_found(X, P, s, nested)
                    R.check("descendants required", not why, what, why)
                else:
                    ok = any(s.decide(e[5]) is False for e in m)
                    ok = ok or s.decide(mk_eq(rule, I0)) is True or s.decide(mk_eq(node, I0)) is True
                    wants = s.decide(mk_eq(child, I0)) is False or s.decide(mk_eq(nn, I0)) is False
                    ok = ok or wants and (s.decide(mk_eq(ntype, ("i", el))) is False or s.decide(mk_eq(nchild, I0)) is True)
                    ok = ok or s.decide(mk_eq(child, I0)) is False and child_missing(X, P, s, child)
                    ok = ok or nested_missing(X, P, s, nested)
                    R.check("nothing else required", ok, what, "the node is rejected although nothing required is missing")
    for f in P.byqn(MRG):
        X = executed(R, P, f)
        if X is None:
            continue
        for L in sorted(X.loops.values(), key=lambda L: L.id):
            for loc, (phi, t, entry) in L.phis.items():
                if not (t and is_ptr(t) and "hext::Rule" in t) or loc[0] != "V" or loc not in L.entry.store:
                    continue
                bad = None
                for b in L.backs:
                    new = b.load(loc, t)
                    if not may_advance(P, b, trace_list(b.trace, L.start), phi, new):
                        bad = (phi, new)
                e = entry
                if not bad and e[0] == "rd":
                    x = nextof(e)
                    if x is not None and not may_advance(P, L.entry, trace_list(L.entry.trace), x, e):
                        bad = (x, e)
                R.check("mandatory rules not skipped", not bad, "%s, loop at %s" % (at(f), L.line), bad and "a rule that was not matched may be mandatory and is passed (%s)" % show(bad[1])[:120])
    for f in P.byqn(FMR):
        X = executed(R, P, f)
        if X is None:
            continue
        begin, end = X.params[0], X.params[1]
        for k, p in enumerate(X.returns):
            s = p.st
            what = "%s, path %d" % (at(f), k + 1)
            opt = optional(s, p.ret)
            isend = s.decide(mk_eq(p.ret, end)) is True
            R.check("mandatory rule search", opt is False or isend, what, "returns %s, which may be optional" % show(p.ret))
            for lid in spec.loops_in(p.trace):
                L = X.loops[lid]
                ok = True
                for loc, (phi, t, entry) in L.phis.items():
                    if not (t and is_ptr(t)):
                        continue
                    for b in spec.rounds(L, s):
                        x = nextof(b.load(loc, t))
                        ok = ok and entry == begin and x == phi and optional(b, phi) is True
                R.check("mandatory rule search", ok, what + " (loop)", "a rule that is not optional may be passed")
    for f in P.byqn(SMNR):
        X = executed(R, P, f)
        if X is None:
            continue
        res = ptr_of(param(X, "vector"))
        n = 0
        for L in X.loops.values():
            for b in L.backs + [o for o in L.exits]:
                for e in trace_list(b.trace, L.start):
                    if e[0] == "push" and e[1] == res and e[3] is not None:
                        n += 1
                        # the pushed vector is known not to be empty
                        ok = pushed_nonempty(X, b, e)
                        R.check("found means matched", ok, "%s, loop at %s" % (at(f), L.line), "a group without any match may be added")
    return R.finish("other", "All abstract paths of the matching functions: every returned value must follow from the facts, calls and rounds of loops on its path.", TRUST)


def pushed_nonempty(X, s, e):
    # size of the vector when it was filled by the last call
    for r, d in X.c.post.items():
        for i, n in d.items():
            if mentions(e[2], lambda x: x == r) or any(ptr_of_arg(l) == ptr_of(e[3]) for l in X.c.locs.get(r, ())):
                if s.decide(mk_eq(n, I0)) is False:
                    return True
    return False


def ptr_of_arg(l):
    if l is None or not isinstance(l, tuple) or not l:
        return None
    return ptr_of(l) if l[0] in ("V", "T", "F", "I", "H", "P") else l


def nested_loops(X, P, s, nested):
    for lid in spec.loops_in(trace_list(s.trace)):
        L = X.loops.get(lid)
        if L is None:
            continue
        idx = set()
        for b in L.backs:
            for e in trace_list(b.trace, L.start):
                if e[0] == "call" and e[1] == SMNR:
                    r = arg(P, e, "Rule")
                    if r[0] == "addr" and r[1][0] == "I" and r[1][1] == nested:
                        idx.add(r[1][2])
        for i in idx:
            yield L, i


def nested_found(X, P, s, nested):
    why = "nested rules are not all looked for"
    for L, i in nested_loops(X, P, s, nested):
        if spec.covers(X, L, spec.size_of(X, L.head, nested), i, s):
            good = True
            for b in spec.rounds(L, s):
                if not group_found(X, P, b, trace_list(b.trace, L.start), ("addr", ("I", nested, i))):
                    good = False
            if good:
                return ""
            why = "a nested group with a mandatory rule may be missing"
    return why


def nested_missing(X, P, s, nested):
    tr = trace_list(s.trace)
    for e in tr:
        if e[0] == "call" and e[1] == SMNR:
            r = arg(P, e, "Rule")
            if r[0] == "addr" and r[1][0] == "I" and r[1][1] == nested and group_missing(X, P, s, tr, r):
                return True
    for L, i in nested_loops(X, P, s, nested):
        for loc, (phi, t, entry) in L.phis.items():
            v = spec.fixed(s, phi)
            if v is None or spec.fixed(L.entry, entry) in (None, v):
                continue
            ss = spec.introducing(L, loc, v)
            if ss and all(group_missing(X, P, b, trace_list(b.trace, L.start), ("addr", ("I", nested, i))) for b in ss):
                return True
    return False


# ------------------------------------------------------------------------ C07
WORKERS = (SMNR, MRG, RMNR, MRO, MRANGE)
BUDGET = "unsigned long"


class BudgetClient(spec.SpecClient):
    """notes the value of the budget before and after every call that is not looked through"""
    budget = None

    def __init__(self, P):
        super().__init__(P)
        self.passed = {}

    def call(self, I, st, fr, e, fn, obj, args):
        if self.budget is not None and fn is not None and fn.get("inrepo") and not self.inline(I, fn, fr):
            I.event(st, "budget", "before", st.load(self.budget, BUDGET))
            for j in budget_param(fn):
                if j < len(args) and interp.is_lv(args[j]):
                    self.passed[fn["id"], e.get("l")] = (st.load(args[j][1], BUDGET), I.LT.get(args[j][1], BUDGET))
        return None

    def opaque(self, I, st, fr, e, fn, obj, args, res):
        super().opaque(I, st, fr, e, fn, obj, args, res)
        if self.budget is not None and fn is not None and fn.get("inrepo"):
            if any(interp.is_lv(a) and a[1] == self.budget for a in args):
                I.event(st, "budget", "after", st.load(self.budget, BUDGET))


def budget_param(f):
    """index of the parameter that carries the budget"""
    return [i for i, p in enumerate(f["params"]) if strip_cv(p["t"].rstrip("& ")) in INTEGERS]


INTEGERS = {"unsigned long", "long", "unsigned int", "int", "unsigned short", "short", "unsigned long long", "long long", "unsigned char", "signed char", "bool", "double", "float"}
WIDE = {"unsigned long", "unsigned long long"}


def recursion(P):
    """functions of the library through which a search can lead to another search"""
    calls = {}
    for f in P.repo_functions():
        if f.get("has_body") and "/libhext/" in f["loc"]:
            calls[f["id"]] = {n["fn"] for n in walk([f["body"], f.get("inits")]) if n.get("fn") and n["fn"] in P.fn}
    roots = [f["id"] for f in P.byqn(SMNR)]

    def reach(frm, g):
        seen, todo = set(), list(frm)
        while todo:
            x = todo.pop()
            for y in g.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen
    back = {}
    for a, bs in calls.items():
        for b in bs:
            back.setdefault(b, set()).add(a)
    down, up = reach(roots, calls), reach(roots, back)
    return (down & up) | set(roots), up


def c07(R, B=None):
    P = program()
    R.rule("search charged", "every path of the search function to a first search has taken one from a limit that is not 0, and a limit that would become 0 throws MaxSearchError before any search", 2)
    R.rule("no other change", "no path changes the limit anywhere else: it is what it was on entry, less the one of this search, at every call and at the end", 6)
    R.rule("one budget", "every call that can lead to a search passes on a reference to the caller's own limit", 8)
    R.rule("full width", "the limit is a 64-bit unsigned integer from the public interface to the search", 4)
    R.rule("limit passed unchanged", "the extract functions pass on exactly the limit they were given", 2)
    R.rule("not swallowed", "no handler of the library can catch MaxSearchError", 1)
    scc, up = recursion(P)
    for fid in sorted(scc | {x for x in up if P.fn[x].get("inrepo")}, key=lambda i: P.fn[i]["qn"]):
        f = P.fn[fid]
        if not f.get("has_body") or f.get("lambda") or "/htmlext/" in f["loc"]:
            continue
        bs = budget_param(f)
        if len(bs) != 1:
            if not bs and fid not in scc:
                continue
            R.skip(short(f["qn"]), "the parameter carrying the limit is not evident")
            continue
        t = f["params"][bs[0]]["t"]
        R.check("full width", strip_cv(t.rstrip("& ")) in WIDE, at(f), "takes the limit as %s" % t)
        if fid in scc:
            R.check("one budget", is_ref(t) and not t.startswith("const"), "%s: parameter" % at(f), "takes the limit by value: searches below are not charged to the caller")
        if not (is_ref(t) or fid not in scc):
            continue
        charged(R, P, f, bs[0], scc)
    handlers(R, P, scc | up)
    try:
        from ..bindings import Bindings
        from . import frontends
        frontends.limits(R, B or Bindings(lib=False))
    except AnalysisBroken as e:
        R.skip("bindings", str(e)[:300])
    return R.finish("other", "All abstract paths of the functions that lead from one search to the next: value of the limit at every call, on "
                    "entry and at the end, and identity of the reference passed on.", TRUST)


def charged(R, P, f, i, scc):
    search = P.sq(f) == SMNR
    c = BudgetClient(P)

    def setup(X, I, st):
        c.budget = I.params[i] if is_ref(f["params"][i]["t"]) else st_param(st, f, i)
    X = executed(R, P, f, setup=setup, client=c)
    if X is None:
        return
    loc = c.budget
    start = X.entry.load(loc, BUDGET)
    ref = is_ref(f["params"][i]["t"])
    n = 0
    for k, p in enumerate(X.paths):
        s = p.st
        what = "%s, path %d" % (at(f), k + 1)
        if p.kind not in ("R", "T"):
            continue
        zero = s.decide(mk_eq(start, I0))
        if search and p.kind == "T" and thrown(p, "MaxSearchError"):
            R.check("search charged", zero is False and s.decide(mk_eq(start, I1)) is True and not p.calls(*WORKERS), what,
                    "MaxSearchError is thrown although the limit is not used up (%s), or after a search" % facts_of(p))
            continue
        if p.kind == "T" and p.payload and p.payload[0] == "call":
            continue
        good, msg, first = sequence(X, c, p.trace, s, start, loc, search)
        R.check("no other change" if not first else "search charged", good, what, msg)
        if good and search and p.calls(*WORKERS):
            R.ok("search charged", what)
        # references
    for s, tr in every_trace(X):
        for e in tr:
            if e[0] == "call" and e[2] in scc:
                g = P.fn[e[2]]
                j = budget_param(g)
                if len(j) != 1:
                    continue
                l = X.c.locs.get(e[5])
                ok = l is not None and j[0] < len(l) and l[j[0]] == loc
                if not ok and f["id"] not in scc:
                    v = c.passed.get((g["id"], e[6][1]))
                    ok = v is not None and v[0] == start and strip_cv(v[1]) in WIDE
                if is_ref(g["params"][j[0]]["t"]):
                    R.check("one budget", ok, "%s: call of %s" % (at(f), short(g["qn"])), "passes %s instead of its own limit" % show(l[j[0]] if l else None))
            if e[0] == "call" and e[1] == "hext::Rule::extract" and P.sq(f) == "hext::Rule::extract":
                g = P.fn[e[2]]
                j = budget_param(g)
                a = e[4][j[0]] if j else None
                R.check("limit passed unchanged", a == start, "%s: call of %s" % (at(f), short(g["qn"])), "passes %s" % show(a))


def thrown(p, name):
    return name in str(p.payload)


def every_trace(X):
    for p in X.paths:
        yield p.st, p.trace
    for L in X.loops.values():
        for b in L.backs:
            yield b, trace_list(b.trace, L.start)


def sequence(X, c, tr, s, start, loc, search):
    """(holds, message, about the first search) of one path or round"""
    cur, charged_ = start, not search
    for e in tr:
        if e[0] == "loop" and e[1] in X.loops:
            L = X.loops[e[1]]
            if loc in L.phis:
                phi, t, entry = L.phis[loc]
            else:
                phi = entry = None
            v = L.entry.load(loc, BUDGET)
            if not charged_ and v != cur:
                charged_ = paid(L.entry, start, v)
                if not charged_:
                    return False, "the limit is changed to %s" % show(v), True
                cur = v
            elif v != cur:
                return False, "the limit is changed to %s before the loop at %s" % (show(v), L.line), False
            for b in L.backs:
                sub = trace_list(b.trace, L.start)[1:]
                searches = any(x[0] == "call" and x[1] in WORKERS for x in sub)
                if searches and not charged_ and b.decide(mk_eq(start, I0)) is not True:
                    return False, "a search is made without having been charged", True
                x = phi if phi is not None else cur
                for y in sub:
                    if y[0] == "budget":
                        if y[1] == "before" and y[2] != x:
                            return False, "the limit is changed in the loop at %s" % L.line, False
                        if y[1] == "after":
                            x = y[2]
                    if y[0] == "loop" and y[1] in X.loops and loc in X.loops[y[1]].phis:
                        x = X.loops[y[1]].phis[loc][0]
                if b.load(loc, BUDGET) != x:
                    return False, "the limit is changed in the loop at %s" % L.line, False
            if phi is not None:
                cur = phi
        elif e[0] == "budget" and e[1] == "before":
            v = e[2]
            if v != cur:
                if charged_:
                    return False, "the limit is changed to %s" % show(v), False
                if not paid(s, start, v):
                    return False, "the limit is changed to %s" % show(v), True
                charged_, cur = True, v
        elif e[0] == "budget":
            cur = e[2]
        elif e[0] == "call" and e[1] in WORKERS and not charged_ and s.decide(mk_eq(start, I0)) is not True:
            return False, "a search is made without having been charged", True
    v = s.load(loc, BUDGET)
    if v != cur:
        if charged_ or not paid(s, start, v):
            return False, "the limit is changed to %s at the end" % show(v), False
    return True, "", False


def paid(s, start, v):
    return v == add(start, I1, -1) and s.decide(mk_eq(start, I0)) is False and s.decide(mk_eq(start, I1)) is False


def st_param(st, f, i):
    pid = f["params"][i]["id"]
    for k in st.store:
        if k[0] == "V" and k[1] == pid:
            return k
    raise AnalysisBroken("parameter %d of %s" % (i, f["qn"]))


def handlers(R, P, involved):
    bases = {"std::exception", "std::runtime_error", "hext::MaxSearchError", "..."}
    n = 0
    for f in P.repo_functions():
        if not f.get("has_body") or "/libhext/" not in f["loc"]:
            continue
        for t in walk(f["body"]):
            if t.get("k") != "try":
                continue
            if not any(x.get("fn") in involved for x in walk(t["b"])):
                continue
            for h in t["handlers"]:
                ht = strip_cv((h.get("t") or (h.get("var") or {}).get("t") or "...").rstrip("& "))
                n += 1
                R.check("not swallowed", ht not in bases or rethrows(h), "%s: handler of %s" % (at(f), ht), "a handler of %s can swallow MaxSearchError" % ht)
    for fid in involved:
        f = P.fn[fid]
        if f.get("has_body") and "/libhext/" in f["loc"]:
            R.check("not swallowed", not f.get("noexcept"), at(f), "is noexcept: MaxSearchError would terminate the process")


def rethrows(h):
    return any(x.get("k") == "throw" and not x.get("e") for x in walk(h.get("b")))
