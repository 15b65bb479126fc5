"""Functional specifications decided on all abstract paths of a function.

A function is interpreted once from an arbitrary state (or one restricted by assumptions);
what remains is a finite set of paths, each with the facts known on it, the calls made (in
order) and the term returned.  Loops appear once, as an arbitrary round: `Loop.phis` holds what
changes, `Loop.backs` the states at the end of a round.
"""
from . import interp, models, facts
from .dom import *
from .facts import AnalysisBroken, short

# functions with a contract of their own: calls of them are never looked through
ANCHORS = {
    "hext::Rule::matches", "hext::Rule::capture", "hext::Rule::extract",
    "hext::SaveMatchingNodesRecursive", "hext::MatchRuleGroup", "hext::RuleMatchesNodeRecursive", "hext::MatchRuleOnce",
    "hext::MatchRange", "hext::FindMandatoryRule",
    "hext::StripTags", "hext::TrimAndCollapseWs", "hext::SerializeNode", "hext::SerializeElement",
    "hext::TagWrapsText", "hext::TagIsSelfClosing", "hext::IsSpace", "hext::NextNode",
    "hext::ParseHext",
}


class SpecClient(interp.Client):
    apart = 24
    ideal = True

    def __init__(self, P, anchors=None, transparent=()):
        self.P, self.anchors, self.transparent = P, ANCHORS if anchors is None else anchors, set(transparent)
        self.post = {}    # result term of a call -> {argument index: size of the sequence afterwards}
        self.seen = set()
        self.locs = {}    # result term -> locations of the arguments

    def inline(self, I, fn, fr):
        n = I.P.sq(fn)
        if n in self.anchors and n not in self.transparent or I.recursive(fn["id"], self.anchors - self.transparent) or I.machine(fn):
            return False
        self.seen.add(fn["id"])
        return True

    def opaque(self, I, st, fr, e, fn, obj, args, res):
        d = {}
        for i, a in enumerate(args):
            if interp.is_lv(a) and fn and i < len(fn["params"]) and models.kind(fn["params"][i]["t"]) == "seq":
                d[i] = st.load(F(a[1], "$n"), "unsigned long")
        if d:
            self.post[res] = d
        self.locs[res] = [a[1] if interp.is_lv(a) else a for a in args]


class Path:
    def __init__(self, X, kind, ret, st):
        self.X, self.kind, self.st = X, kind, st
        self.payload = ret
        self.ret = X.value(ret, st, X.f["ret"]) if kind == "R" else ret
        self.trace = trace_list(st.trace)

    def calls(self, *names):
        return [c for c in self.trace if c[0] == "call" and (not names or any(c[1].endswith(n) for n in names))]

    def true(self, t):
        return self.st.decide(t) is True

    def false(self, t):
        return self.st.decide(t) is False

    def null(self, t):
        return self.st.decide(mk_eq(t, I0)) is True

    def nonnull(self, t):
        return self.st.nonnull(t)

    def with_(self, *assumptions):
        """state with further assumptions, or None if infeasible"""
        s = self.st.copy()
        for t, truth in assumptions:
            if not s.assume(t, truth) or s.dead:
                return None
        return s


class Exec:
    """all paths of one function"""

    def __init__(self, P, f, setup=None, transparent=(), anchors=None, client=None):
        self.P, self.f = P, f
        self.c = client or SpecClient(P, anchors, transparent)
        self.I = interp.Interp(P, self.c)
        try:
            outs = self.I.run(f, setup=self._setup(setup))
        except RecursionError:
            raise AnalysisBroken("recursion too deep in " + f["qn"])
        self.params = self.I.params
        self.this = ("P", ("ap", "this"))
        self.paths = [Path(self, k, v, s) for k, v, s in outs]
        self.loops = self.I.loops

    def _setup(self, setup):
        def go(I, st, fr):
            self.fr = fr
            if setup:
                setup(self, I, st)
            self.entry = st.copy()
        return go

    def value(self, v, st, t):
        if v is None:
            return None
        if interp.is_lv(v):
            if is_ref(t):
                return v
            if self.I.is_class(t):
                return models.value(self.I, st, v[1], strip_cv(t))
            return st.load(v[1], t)
        return v

    def field(self, name, st, *more, t=None):
        return st.load(F(self.this, name, *more), t)

    @property
    def returns(self):
        return [p for p in self.paths if p.kind == "R"]

    def where(self):
        return "%s %s" % (facts.rel(self.f["loc"]), short(self.f["qn"]))


def node_field(P, p, f):
    """value of a field of the GumboNode p points to, unmodified"""
    t = ("rd", F(("P", p), *f.split(".")))
    return t


def ty(t, name):
    TYPES.setdefault(t, name)
    return t


def enum(P, typ, name):
    for k, e in P.enums.items():
        if short(k).endswith(typ):
            for n, v in e["consts"]:
                if n == name:
                    return interp.num(v)
    raise AnalysisBroken("no enumerator %s::%s" % (typ, name))


def outermost(P, base, method):
    """definitions that override base::method, with their class"""
    out = []
    for f in P.repo_functions():
        if f.get("has_body") and f["name"] == method and f.get("record") and is_override(P, f, base):
            out.append(f)
    return sorted(out, key=lambda f: f["qn"])


def is_override(P, f, base):
    if short(f["qn"]).rsplit("::", 1)[0] == base and not f.get("overrides"):
        return False
    seen, todo = set(), list(f.get("overrides", []))
    while todo:
        b = todo.pop()
        if b in seen or b not in P.fn:
            continue
        seen.add(b)
        if P.sq(P.fn[b]) == base + "::" + f["name"]:
            return True
        todo += P.fn[b].get("overrides", [])
    return False


# -------------------------------------------------------------------- loops
def loops_in(trace):
    return [e[1] for e in trace if e[0] == "loop"]


def phi_of(L, t):
    """(location, phi, constant) if t is phi + constant for a variable of the loop"""
    c, ts = to_lin(t)
    if len(ts) == 1 and ts[0][1] == 1:
        for loc, (p, ty_, entry) in L.phis.items():
            if p == ts[0][0]:
                return loc, p, c
    return None


def covers(X, L, cont_size, idx, exit_st):
    """'forward' / 'backward' if idx takes every value 0..size-1 once before the loop ends normally in exit_st"""
    r = phi_of(L, idx)
    if r is None:
        return None
    loc, phi, c = r
    ty_, entry = L.phis[loc][1], L.phis[loc][2]
    steps = set()
    for b in L.backs:
        d = lin_comb(to_lin(b.load(loc, ty_)), 1, to_lin(phi), -1)
        steps.add(d[0] if not d[1] else None)
    first = add(entry, ("i", c))
    if steps == {1} or not steps:
        if first == I0 and exit_st.le(cont_size, idx):
            return "forward"
    if steps == {-1}:
        if add(first, I1) == cont_size or exit_st.decide(mk_eq(add(first, I1), cont_size)) is True:
            if exit_st.lt(idx, I0):
                return "backward"
    return None


def size_of(X, st, cont, t=None):
    """number of elements of a container location (or of what a Gumbo list points to)"""
    if cont[0] == "P" and cont[1][0] == "rd" and cont[1][1][0] == "F" and cont[1][1][2] == "data":
        return ty(st.load(F(cont[1][1][1], "length")), "unsigned int")
    return ty(st.load(F(cont, "$n")), "unsigned long")


def fixed(st, t):
    """the constant t has in st, if any"""
    if is_const(t):
        return t[1]
    v = st.values(t)
    if v is not None and len(v) == 1:
        return next(iter(v))
    lo, hi = st.bounds(t)[:2]
    return lo if lo is not None and lo == hi else None


def rounds(L, st):
    """[(state after a round, every round?)] that can have happened before the loop ended in st.

    What st knows about the variables of the loop must hold after the last round; when it then
    also held before that round, it held after every round."""
    known = {}
    for loc, (phi, t, entry) in L.phis.items():
        v = fixed(st, phi)
        if v is not None:
            known[loc] = (phi, t, "=", v)
        elif st.nonnull(phi) and not L.head.nonnull(phi):
            known[loc] = (phi, t, "!", 0)
    if not known:
        return list(L.backs)

    def holds(s, x, op, v):
        d = s.decide(mk_eq(x, ("i", v)))
        return d is True if op == "=" else d is False
    # facts that hold inductively backwards: true after a round only if true before
    changed = True
    use = dict(known)
    while changed:
        changed = False
        for loc in list(use):
            phi, t, op, v = use[loc]
            for b in L.backs:
                s = assume_all(b, [(b.load(l, u[1]), u[2], u[3]) for l, u in use.items()])
                if s is not None and not holds(s, phi, op, v):
                    del use[loc]
                    changed = True
                    break
    out = []
    for b in L.backs:
        s = assume_all(b, [(b.load(l, u[1]), u[2], u[3]) for l, u in use.items()])
        if s is not None:
            out.append(s)
    return out


def assume_all(b, conds):
    s = b.copy()
    for x, op, v in conds:
        if not s.assume(mk_eq(x, ("i", v)), op == "=") or s.dead:
            return None
    return s


def introducing(L, loc, v):
    """states after rounds in which the variable becomes v without having been v before"""
    phi, t, entry = L.phis[loc]
    out = []
    for b in L.backs:
        s = assume_all(b, [(b.load(loc, t), "=", v), (phi, "!", v)])
        if s is not None:
            out.append(s)
    return out
