"""C26 positions and counts: the arithmetic of the position and count matches."""
from .. import interp, spec, models, oblig
from ..dom import *
from ..facts import AnalysisBroken, rel, short, walk
from .safety import program, TEXT
from .matching import at, TRUST
from .serial import entry_of

ARITH = ("sovf", "div", "divovf", "narrow")
UNCHECKED = {"atoi", "atol", "atoll", "sscanf", "std::atoi", "std::atol", "std::atoll", "std::sscanf"}


def c26(R):
    P = program()
    R.rule("arithmetic", "no signed overflow, division by zero, overflowing quotient or value-changing conversion in the library", 10)
    R.rule("wrap-around", "unsigned arithmetic of the matches does not wrap", 3)
    R.rule("counting", "every round counts exactly the sibling elements (of the same tag, if asked for), in order, up to the node itself", 10)
    R.rule("pattern", "a position matches step*n+shift exactly if it is reached by some n >= 0", 10)
    R.rule("counts", "child-count and attribute-count compare with the number of element children and of attributes", 2)
    R.rule("only child", "an only child is an element without other element siblings (of the same tag, if asked for)", 4)
    R.rule("numbers", "numbers are converted with a check of their range", 1)
    A = oblig.Obligations(P)
    for fid, why in A.broken.items():
        R.skip(P.fn[fid]["qn"], why)
    for r in A.results.values():
        f = r["fn"]
        where = "%s:%s %s" % (rel(f["loc"].rsplit(":", 2)[0] + ":0:0").split(":")[0], r["line"], short(f["qn"]))
        match = (f.get("record") or "").endswith("Match")
        if "/libhext/" not in f["loc"] or r["kind"] not in ARITH and not (match and r["kind"] == "uwrap"):
            continue
        R.fn(f)
        d = r["detail"]
        R.check("arithmetic" if r["kind"] in ARITH else "wrap-around", r["ok"], where, "%s: not shown for %s" % (TEXT[r["kind"]], str(d)[:160]), key="%s:%s" % (r["kind"], short(f["qn"])))
    for f in spec.outermost(P, "hext::Match", "matches"):
        cls = f["record"]
        if cls == "hext::NthChildMatch":
            nth(R, P, f)
        elif cls == "hext::OnlyChildMatch":
            only(R, P, f)
        elif cls == "hext::ChildCountMatch":
            count(R, P, f, "children")
        elif cls == "hext::AttributeCountMatch":
            count(R, P, f, "attributes")
    for f in P.repo_functions():
        if f.get("has_body") and "/libhext/" in f["loc"]:
            numbers(R, P, f)
    return R.finish("other", "Overflow, division, wrap-around and conversion obligations are discharged on all abstract paths; the counting loops and the pattern are compared with their definition for every sign of the step.", TRUST)


# ------------------------------------------------------------------ numbers
def numbers(R, P, f):
    for n in walk([f.get("body")]):
        if n.get("k") != "call":
            continue
        g = P.fn.get(n.get("fn") or "")
        q = short(g["qn"]) if g else n.get("qn") or ""
        name = q.split("::")[-1].split("<")[0]
        if q.startswith("std::") and name in ("stoi", "stol", "stoll", "stoul", "stoull"):
            R.ok("numbers", "%s: %s at %s" % (at(f), name, n.get("l")))
        elif q in UNCHECKED or name in ("atoi", "atol", "atoll"):
            R.violation("numbers", at(f), "%s at %s does not report numbers out of range" % (name, n.get("l")))


# ------------------------------------------------------------------ fields
def fields(R, P, cls, types):
    """fields that the constructor with these parameter types fills with its parameters, in order"""
    for f in P.repo_functions():
        if f.get("kind") == "ctor" and f.get("record") == cls and f.get("has_body") and not f.get("copyctor") and not f.get("movector"):
            pt = [strip_cv(p["t"]).split("::")[-1] for p in f["params"]]
            if pt != types:
                continue
            try:
                X = spec.Exec(P, f)
            except AnalysisBroken as ex:
                R.skip(at(f), str(ex)[:200])
                return None
            out = []
            for a in X.params.values():
                hits = {l for p in X.returns for l, v in p.st.store.items() if l[0] == "F" and l[1] == ("P", ("ap", "this")) and v == a}
                if len(hits) != 1:
                    R.skip(at(f), "which field keeps %s is not evident" % show(a))
                    return None
                out.append(next(iter(hits)))
            return out
    return None


def run(R, P, f, loc, v):
    def setup(X, I, st):
        if loc is not None:
            st.store[loc] = ("i", v)
        # Gumbo: tags are enumerators
        tag = spec.ty(("rd", F(F(F(("P", I.params[0]), "v"), "element"), "tag")), "GumboTag")
        st.assume(mk_lt(tag, ("i", spec.enum(P, "GumboTag", "GUMBO_TAG_LAST"))), True)
    try:
        X = spec.Exec(P, f, setup)
    except AnalysisBroken as ex:
        R.skip(at(f), str(ex)[:200])
        return None
    R.fn(f)
    for i in X.c.seen:
        R.fn(P.fn[i])
    return X


def entries(s, vec, start=()):
    """entries of the list mentioned in a state"""
    out = set()

    def look(t):
        mentions(t, lambda y: out.add(y) if isinstance(y, tuple) and y and y[0] == "rd" and entry_of(vec, y) is not None else False)
    for v in s.store.values():
        if isinstance(v, tuple):
            look(v)
    for t in s.dom:
        look(t)
    return out


def is_element(P, s, n):
    t = spec.ty(("rd", F(("P", n), "type")), "GumboNodeType")
    return s.decide(mk_eq(t, ("i", spec.enum(P, "GumboNodeType", "GUMBO_NODE_ELEMENT"))))


def same_tag(s, a, b):
    return s.decide(mk_eq(*[spec.ty(("rd", F(F(F(("P", n), "v"), "element"), "tag")), "GumboTag") for n in (a, b)]))


def siblings(n):
    par = ("rd", F(("P", n), "parent"))
    return F(F(F(("P", par), "v"), "element"), "children")


def counter(L):
    """the variable of a loop that grows by 0 or 1, not by a fixed amount"""
    out = []
    for l, (phi, t, entry) in L.phis.items():
        ds = set()
        for b in L.backs:
            d = lin_comb(to_lin(b.load(l, t)), 1, to_lin(phi), -1)
            ds.add(d[0] if not d[1] else None)
        if ds and ds <= {0, 1} and 1 in ds and strip_cv(t) != "bool":
            out.append((l, phi, t, entry, ds))
    two = [x for x in out if x[4] == {0, 1}]
    return two[0] if len(two) == 1 else None


def current(X, L, b, vec):
    """the entry a round is about, with its index"""
    es = {(e, entry_of(vec, e)) for e in entries(b, vec)}
    es = [(e, i) for e, i in es if spec.phi_of(L, i)]
    return es[0] if len(es) == 1 else None


def counted(P, s, el, node, same):
    """True/False if the facts decide that el is counted"""
    if s.decide(mk_eq(el, I0)) is True:
        return False
    e = is_element(P, s, el)
    if e is not True:
        return e
    return same_tag(s, el, node) if same else True


def rounds_count(R, P, X, L, vec, node, same, what):
    """checks every round; returns (counter, index) or None"""
    c = counter(L)
    if c is None:
        R.skip("%s, loop at %s" % (what, L.line), "no counter recognised")
        return None
    l, phi, t, entry = c[:4]
    idx = set()
    for k, b in enumerate(L.backs):
        w = "%s, loop at %s, round %d" % (what, L.line, k + 1)
        cur = current(X, L, b, vec)
        if cur is None:
            R.skip(w, "which sibling a round is about is not evident")
            return None
        el, i = cur
        idx.add(i)
        d = b.load(l, t) != phi
        y = counted(P, b, el, node, same)
        kind = "of the same tag" if same else ""
        if d and y is not True:
            R.violation("counting", w, "counts a sibling that may not be an element %s" % kind)
        elif not d and y is not False:
            R.violation("counting", w, "does not count a sibling that may be an element %s" % kind)
        else:
            R.ok("counting", w)
    if len(idx) != 1 or entry != I0:
        R.skip("%s, loop at %s" % (what, L.line), "order of the siblings is not evident" if len(idx) != 1 else "the count does not start at zero")
        return None
    return phi, next(iter(idx)), l, t


# ------------------------------------------------------------------ nth-child
def nth(R, P, f):
    fl = fields(R, P, f["record"], ["int", "int", "Option"])
    ens = [k for k in P.enums if short(k) == "hext::NthChildMatch::Option"]
    if fl is None or not ens:
        R.skip(at(f), "step and shift are not recognised")
        return
    o = {c: int(v) for c, v in P.enums[ens[0]]["consts"]}
    if not {"First", "Last", "OfType"} <= set(o):
        R.skip(at(f), "options are not recognised")
        return
    pair(R, P, f, fl)
    for last in (False, True):
        for same in (False, True):
            v = o["Last" if last else "First"] | (o["OfType"] if same else 0)
            X = run(R, P, f, fl[2], v)
            if X is not None:
                nth_option(R, P, X, f, fl, last, same)


def pair(R, P, f, fl):
    """the constructor that takes a pair: first is the step, second the shift"""
    for g in P.repo_functions():
        if g.get("kind") == "ctor" and g.get("record") == f["record"] and g.get("has_body") and g["params"] and strip_cv(g["params"][0]["t"]).startswith("std::pair<"):
            try:
                X = spec.Exec(P, g)
            except AnalysisBroken as ex:
                R.skip(at(g), str(ex)[:200])
                continue
            for p in X.returns:
                for l, m in zip(fl, ("first", "second")):
                    v = p.st.load(l)
                    if v[0] == "rd" and v[1][0] == "F" and v[1][2] in ("first", "second"):
                        R.check("pattern", v[1][2] == m, at(g), "the %s of the pair becomes the %s" % (v[1][2], "step" if m == "first" else "shift"))
                    else:
                        R.skip(at(g), "value of %s is not recognised" % show(l))


def nth_option(R, P, X, f, fl, last, same):
    what = "%s (%s%s)" % (at(f), "last" if last else "first", ", of type" if same else "")
    S, H = [spec.ty(("rd", x), "int") for x in fl[:2]]
    node = X.params[0]
    vec = siblings(node)
    info, outward = {}, {}
    pos = spec.ty(("rd", F(("P", node), "index_within_parent")), "unsigned int")
    for L in X.loops.values():
        r = rounds_count(R, P, X, L, vec, node, same, what)
        if r is None:
            return
        info[L.id] = r
        phi, idx, l, t = r
        lphi = spec.phi_of(L, idx)
        entry = add(L.phis[lphi[0]][2], ("i", lphi[2]))
        steps = {lin_comb(to_lin(b.load(lphi[0])), 1, to_lin(lphi[1]), -1) for b in L.backs}
        size = spec.ty(("rd", F(vec, "length")), "unsigned int")
        w = "%s, loop at %s" % (what, L.line)
        away = {add(entry, pos, -1): steps} if steps == {((1 if last else -1), ())} else {}
        if away in ({I0: steps}, {("i", 1 if last else -1): steps}):
            # from the node (or the sibling next to it) outwards
            outward[L.id] = next(iter(away)) == I0
            R.ok("counting", w)
        elif last:
            R.check("counting", add(entry, I1) == size and steps == {(-1, ())}, w, "following siblings are not visited from the last to the node")
        else:
            R.check("counting", entry == I0 and steps == {(1, ())}, w, "preceding siblings are not visited from the first to the node")
    for k, p in enumerate(X.returns):
        w = "%s, path %d" % (what, k + 1)
        s = p.st
        if p.null(node) or is_element(P, s, node) is False:
            R.check("pattern", p.false(p.ret) or p.ret == I0, w, "accepts something that is not an element")
            continue
        loops = [i for i in spec.loops_in(p.trace) if i in info]
        cand = []
        if not loops:
            par = ("rd", F(("P", node), "parent"))
            none = p.null(par) or is_element(P, s, par) is False or s.decide(mk_eq(("rd", F(vec, "length")), I0)) is True
            cand.append((I0, none, "a position of 0 is used though the node has siblings"))
        else:
            L = X.loops[loops[-1]]
            phi, idx, l, t = info[L.id]
            els = [e for e in entries(s, vec) if s.decide(mk_eq(e, node)) is True]
            if L.id in outward:
                done = s.le(("rd", F(vec, "length")), idx) if last else s.lt(idx, I0)
                cand.append((phi if outward[L.id] else add(phi, I1), done, "not all siblings on this side of the node are counted"))
                cand.append((add(phi, I1) if outward[L.id] else phi, False, "the node itself is counted twice or not at all"))
            elif els:
                y = is_element(P, s, els[0]), same_tag(s, els[0], node)
                if y[0] is False or same and y[1] is False:
                    continue    # the node itself is an element of its own tag
                cand.append((add(phi, I1), True, ""))
                cand.append((phi, False, "the node itself is not counted"))
            else:
                past = s.lt(pos, idx) if not last else s.lt(idx, pos)
                cand.append((phi, past, "the siblings are not counted up to the node itself"))
                cand.append((I0, True, ""))
                cand.append((add(phi, I1), not past, ""))
        verdicts = [(formula(s, p.ret, N, S, H), good, msg) for N, good, msg in cand]
        if any(v is True and good for v, good, msg in verdicts):
            R.ok("pattern", w)
            continue
        wrong = [msg for v, good, msg in verdicts if v is True and not good]
        if wrong:
            R.violation("pattern", w, wrong[0])
        elif all(v is False for v, good, msg in verdicts):
            R.violation("pattern", w, "the result %s does not decide whether position %s is reached from shift with step" % (show(p.ret)[:120], show(cand[0][0])))
        else:
            R.skip(w, "the result %s is not recognised" % show(p.ret)[:120])


def formula(s, ret, N, S, H):
    """True: ret says whether N = S*n+H for some n >= 0; False: it does not; None: not recognised"""
    known = lambda t: not mentions(t, lambda y: y[:1] == ("op",) and y[1] not in ("%",) or y[:1] == ("ap",) and y != ("ap", "this") and y[1] not in ("join", "param"))
    rems = set()

    def look(t):
        mentions(t, lambda y: rems.add(y) if y[:2] == ("op", "%") else False)
    look(ret)
    other = False
    for t in s.dom:
        look(t)
        if mentions(t, lambda y: y == S or y == H) and mentions(t, lambda y: y[:1] == ("op",) and y[1] != "%"):
            other = True
    if not known(ret) or other:
        return None
    diff = {add(N, H, -1), add(H, N, -1)}
    steps = {S, add(I0, S, -1)}
    good = [r for r in rems if r[2] in diff and r[3] in steps]

    def says(s2, want):
        d = s2.decide(ret) if not is_const(ret) else ret[1] != 0
        return d is want

    def with_(s2, t, truth):
        s3 = s2.copy()
        return s3 if s3.assume(t, truth) and not s3.dead else None
    # step 0
    z = with_(s, mk_eq(S, I0), True)
    if z is not None:
        for truth in (True, False):
            y = with_(z, mk_eq(N, H), truth)
            if y is not None and not says(y, truth):
                return False
    for sign in (1, -1):
        z = with_(s, mk_lt(I0, S) if sign > 0 else mk_lt(S, I0), True)
        if z is None:
            continue
        before = mk_lt(N, H) if sign > 0 else mk_lt(H, N)
        y = with_(z, before, True)
        if y is not None and not says(y, False):
            return False
        y = with_(z, before, False)
        if y is None:
            continue
        eq = y.decide(mk_eq(N, H)) is True or y.decide(mk_eq(S, ("i", sign))) is True
        if eq:
            if not says(y, True):
                return False
            continue
        if not good:
            return False
        for truth in (True, False):
            y2 = y.copy()
            if not all(y2.assume(mk_eq(r, I0), truth) for r in good) or y2.dead:
                continue
            if not says(y2, truth):
                return False
    return True


# ------------------------------------------------------------------ counts
def count(R, P, f, which):
    fl = fields(R, P, f["record"], ["unsigned int"]) or fields(R, P, f["record"], ["unsigned long"]) or fields(R, P, f["record"], ["int"])
    if fl is None:
        R.skip(at(f), "the expected number is not recognised")
        return
    X = run(R, P, f, None, 0)
    if X is None:
        return
    node = X.params[0]
    vec = F(F(F(("P", node), "v"), "element"), which)
    want = spec.ty(("rd", fl[0]), "unsigned int")
    what = at(f)
    size = spec.ty(("rd", F(vec, "length")), "unsigned int")
    info = {}
    for L in X.loops.values():
        r = rounds_count(R, P, X, L, vec, node, False, what)
        if r is None:
            return
        info[L.id] = r
    for k, p in enumerate(X.returns):
        w = "%s, path %d" % (what, k + 1)
        if p.null(node) or is_element(P, p.st, node) is False:
            R.check("counts", p.false(p.ret) or p.ret == I0, w, "accepts something that is not an element")
            continue
        loops = [i for i in spec.loops_in(p.trace) if i in info]
        if which == "attributes" and not loops:
            n = size
        elif loops:
            L = X.loops[loops[-1]]
            phi, idx, l, t = info[L.id]
            n = phi
            if spec.covers(X, L, size, idx, p.st) is None:
                d = p.st.decide(p.ret) if not is_const(p.ret) else p.ret[1] != 0
                if d is False and (p.st.lt(want, phi) or p.st.lt(want, add(phi, I1))):
                    R.ok("counts", w)
                elif not L.exits and not any(e[0] == "exit" for e in p.trace):
                    R.skip(w, "the loop ends early")
                else:
                    R.violation("counts", w, "not all children are counted")
                continue
        elif p.st.decide(mk_eq(size, I0)) is True:
            n = I0
        else:
            R.skip(w, "no count found")
            continue
        bad = None
        for truth in (True, False):
            s = p.with_((mk_eq(n, want), truth))
            if s is not None:
                d = s.decide(p.ret) if not is_const(p.ret) else p.ret[1] != 0
                if d is not truth:
                    bad = "result %s for a number of %s is wrong" % (show(p.ret)[:100], "the expected size" if truth else "another size")
                    if d is None and mentions(p.ret, lambda y: y[:1] in (("op",), ("ap",)) and y != ("ap", "this") and y[:2] not in (("ap", "param"), ("ap", "join"))):
                        bad = ""
        if bad == "":
            R.skip(w, "the result %s is not recognised" % show(p.ret)[:100])
        else:
            R.check("counts", bad is None, w, bad)


def only(R, P, f):
    fl = fields(R, P, f["record"], ["Option"])
    ens = [k for k in P.enums if short(k) == "hext::OnlyChildMatch::Option"]
    o = {c: int(v) for c, v in P.enums[ens[0]]["consts"]} if ens else {}
    if fl is None or not {"AnyType", "OfType"} <= set(o):
        R.skip(at(f), "options are not recognised")
        return
    for same in (False, True):
        X = run(R, P, f, fl[0], o["OfType" if same else "AnyType"])
        if X is None:
            continue
        what = "%s (%s)" % (at(f), "of type" if same else "any type")
        node = X.params[0]
        vec = siblings(node)
        par = ("rd", F(("P", node), "parent"))
        size = spec.ty(("rd", F(vec, "length")), "unsigned int")

        def other(s, el):
            """True: el is another counted sibling; False: it is not"""
            me = s.decide(mk_eq(el, node))
            if me is True:
                return False
            y = counted(P, s, el, node, same)
            return False if y is False else True if y is True and me is False else None
        for L in X.loops.values():
            if counter(L):
                R.skip(what, "siblings are counted")
                break
        else:
            for k, p in enumerate(X.returns):
                w = "%s, path %d" % (what, k + 1)
                s = p.st
                d = s.decide(p.ret) if not is_const(p.ret) else p.ret[1] != 0
                if d is None:
                    R.skip(w, "the result %s is not recognised" % show(p.ret)[:100])
                    continue
                if p.null(node) or is_element(P, s, node) is False or p.null(par) or is_element(P, s, par) is False:
                    R.check("only child", d is False, w, "accepts a node without parent element")
                    continue
                loops = spec.loops_in(p.trace)
                if d is False:
                    els = entries(s, vec)
                    R.check("only child", any(other(s, e) is True for e in els), w, "rejects a node without another sibling element")
                    continue
                if not loops:
                    R.check("only child", s.decide(mk_eq(size, I0)) is True or s.decide(mk_eq(size, I1)) is True, w, "accepts a node without looking at its siblings")
                    continue
                L = X.loops[loops[-1]]
                idx = set()
                ok = True
                for b in L.backs:
                    cur = current(X, L, b, vec)
                    if cur is None:
                        ok = None
                        break
                    idx.add(cur[1])
                    ok = ok and other(b, cur[0]) is False
                if ok is None or len(idx) != 1:
                    R.skip(w, "which sibling a round is about is not evident")
                else:
                    R.check("only child", ok, w, "a round passes over another sibling element")
                    R.check("only child", spec.covers(X, L, size, next(iter(idx)), s) is not None, w, "not all siblings are looked at")
