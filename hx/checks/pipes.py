"""C16: a captured value passes every pipe once, in order."""
from .. import interp, spec, models
from ..dom import *
from ..facts import AnalysisBroken, rel, short
from .safety import program
from .matching import executed, at, TRUST, X_node, lookup

PIPE, TRANSFORM, APPEND = "hext::StringPipe::pipe", "hext::StringPipe::transform", "hext::StringPipe::append"
ANCH = spec.ANCHORS | {PIPE, TRANSFORM, APPEND}


def events(X, s):
    """calls made on the way to s, inside loops as well"""
    yield from trace_list(s.trace)
    for L in X.loops.values():
        for b in L.backs:
            yield from trace_list(b.trace, L.start)


def origin_event(X, s, t):
    """call whose string result t is"""
    if t[0] == "rd" and t[1][0] == "F" and t[1][2] == "$s" and t[1][1][0] == "H":
        for e in events(X, s):
            if e[0] == "call" and e[5] == t[1][1][1]:
                return e
    return None


def canon(X, s, t, depth=0):
    """text term with transform and pipe calls made explicit: ("tr", pipe, text), ("chain", pipe, text)"""
    e = origin_event(X, s, t) if depth < 20 else None
    if e is None or e[1] not in (PIPE, TRANSFORM):
        return t
    return ("chain" if e[1] == PIPE else "tr", e[3], canon(X, s, e[4][0], depth + 1))


def nextptr(p, field):
    return ("rd", F(F(("P", p), field), "$p"))


def goals(s, g, field, n=4):
    """g and what it unfolds to under the facts of s"""
    yield g
    k = 0
    while g[0] == "chain" and k < n:
        d = s.decide(mk_eq(g[1], I0))
        if d is True:
            g = g[2]
        elif d is False:
            g = ("chain", nextptr(g[1], field), ("tr", g[1], g[2]))
        else:
            return
        yield g
        k += 1


def same(s, a, b):
    if a == b:
        return True
    if a[0] == b[0] and a[0] in ("tr", "chain"):
        return (a[1] == b[1] or s.decide(mk_eq(a[1], b[1])) is True) and same(s, a[2], b[2])
    return False


def meets(s, t, g, field):
    """does the canonical text t equal the goal g in s?"""
    ts = list(goals(s, t, field))
    return any(same(s, x, y) for x in ts for y in goals(s, g, field))


def candidates(L, goal):
    """chain terms that could be kept by the loop: some pipe pointer and some text it changes"""
    ps = [(l, v) for l, v in L.phis.items() if is_ptr(v[1] or "") and "StringPipe" in v[1]]
    ss = [(l, v) for l, v in L.phis.items() if l[0] == "F" and l[2] == "$s"]
    for h in L.havocs:
        l = h if h[0] == "F" and h[2] == "$s" else F(h, "$s")
        if l not in L.phis:
            ss.append((l, (L.head.load(l), None, L.entry.load(l))))
    for pl, pv in ps:
        for sl, sv in ss:
            yield pl, pv, sl, sv


def loop_goal(X, L, goal, field):
    """(goal at the head of the loop, reason it fails)"""
    why = "no variable pipe and text in the loop"
    for pl, (pphi, pt, pe), sl, (sphi, st_, se) in candidates(L, goal):
        g = ("chain", pphi, sphi)
        entry = ("chain", pe, canon(X, L.entry, se))
        if not meets(L.entry, entry, goal, field):
            why = "enters with %s" % show_c(entry)
            continue
        ok = True
        for b in L.backs:
            t = ("chain", b.load(pl, pt), canon(X, b, b.load(sl, st_)))
            if not meets(b, t, g, field):
                ok, why = False, "a round turns %s into %s" % (show_c(g), show_c(t))
                break
        if ok:
            return g, None
    return None, why


def show_c(t):
    if t[0] == "tr":
        return "transform(%s, %s)" % (show(t[1])[:60], show_c(t[2]))
    if t[0] == "chain":
        return "pipe(%s, %s)" % (show(t[1])[:60], show_c(t[2]))
    return show(t)[:80]


def link_field(P):
    r = P.records.get("hext::StringPipe")
    fs = [f["name"] for f in (r or {}).get("fields", []) if "StringPipe" in f["t"]]
    if len(fs) != 1:
        raise AnalysisBroken("hext::StringPipe: no single link to the next pipe")
    return fs[0]


def pipe_rule(R, P, link):
    for f in P.byqn(PIPE):
        if not f.get("has_body"):
            continue
        X = executed(R, P, f, anchors=ANCH)
        if X is None:
            continue
        text = X.entry.load(F(X.params[0], "$s"))
        for k, p in enumerate(X.returns):
            what = "%s, path %d" % (at(f), k + 1)
            goal, why = ("chain", ("ap", "this"), text), None
            for e in p.trace:
                if e[0] == "loop" and e[1] in X.loops and X.loops[e[1]].phis and any(True for _ in candidates(X.loops[e[1]], goal)):
                    goal, why = loop_goal(X, X.loops[e[1]], goal, link)
                    if goal is None:
                        break
            if goal is None:
                R.check("every pipe once, in order", False, what, why)
                continue
            t = canon(X, p.st, p.ret)
            R.check("every pipe once, in order", meets(p.st, t, goal, link), what, "returns %s" % show_c(t))


def append_rule(R, P, link):
    for f in P.byqn(APPEND):
        if not f.get("has_body"):
            continue
        X = executed(R, P, f, anchors=ANCH)
        if X is None:
            continue
        new = X.entry.load(F(X.params[0], "$p"))
        for k, p in enumerate(X.returns):
            what = "%s, path %d" % (at(f), k + 1)
            writes = links(p.st, link)
            apps = [e for e in p.calls(APPEND)]
            if apps:
                ok = len(apps) == 1 and not writes and on_chain(X, p.st, apps[0][3], link) and p.st.decide(mk_eq(apps[0][4][0], new)) is True
                R.check("appended last", ok, what, "appends %s to %s%s" % (show(apps[0][4][0]), show(apps[0][3]), " and changes links" if writes else ""))
                continue
            tails = [(q, v) for q, v in writes]
            ok = len(tails) == 1
            if ok:
                q, v = tails[0]
                old = nextptr(q, link) if q[0] != "slot" else ("rd", F(("P", q[1]), "$p"))
                ok = p.st.decide(mk_eq(v, new)) is True and p.st.decide(mk_eq(old, I0)) is True and on_chain(X, p.st, q, link)
            R.check("appended last", ok, what, "changes the links %s" % "; ".join("%s->%s" % (show(q), show(v)) for q, v in tails) if tails else "the pipe is dropped")


def links(s, link):
    """[(pipe, new successor)]"""
    qs = []
    for loc in list(s.store) + list(s.alias):
        while loc[0] == "F":
            if loc[2] == link and loc[1][0] == "P" and loc[1][1] not in qs:
                qs.append(loc[1][1])
            loc = loc[1]
    out = []
    for loc in list(s.store) + list(s.alias):
        b = loc[1] if loc[0] == "F" and loc[2] == "$p" else loc
        if b[0] == "P" and b[1][0] in ("phi", "addr") and "StringPipe" in TYPES.get(b[1], "unique_ptr<hext::StringPipe") and ("slot", b[1]) not in [q for q, v in out]:
            v = s.load(F(b, "$p"))
            if v != ("rd", F(b, "$p")):
                out.append((("slot", b[1]), v))
    for q in qs:
        v = s.load(F(F(("P", q), link), "$p"))
        if v != nextptr(q, link) and s.decide(mk_eq(v, nextptr(q, link))) is not True:
            out.append((q, v))
    return out


def on_chain(X, s, q, link, depth=0):
    """is q this pipe or one behind it?"""
    if depth > 6:
        return False
    if q == ("ap", "this"):
        return True
    if q[0] == "slot":
        return slot_on_chain(X, s, q[1], link)
    if q[0] == "rd" and q[1][0] == "F" and q[1][2] == "$p" and q[1][1][0] == "F" and q[1][1][2] == link and q[1][1][1][0] == "P":
        return on_chain(X, s, q[1][1][1][1], link, depth + 1)
    if q[0] == "phi":
        for L in X.loops.values():
            for loc, (phi, t, entry) in L.phis.items():
                if phi == q:
                    return on_chain(X, s, entry, link, depth + 1) and all(b.load(loc, t) == nextptr(phi, link) or b.load(loc, t) == phi for b in L.backs)
    return False


def slot_on_chain(X, s, a, link):
    """is a the address of the link of this pipe or one behind it?"""
    if a[0] == "addr" and a[1][0] == "F" and a[1][2] == link and a[1][1][0] == "P":
        return on_chain(X, s, a[1][1][1], link)
    for L in X.loops.values():
        for loc, (phi, t, entry) in L.phis.items():
            if phi == a:
                after = ("addr", F(("P", ("rd", F(("P", phi), "$p"))), link))
                return slot_on_chain(X, s, entry, link) and all(b.load(loc, t) in (after, phi) for b in L.backs)
    return False


# ------------------------------------------------------------------ captures
def stored_fields(R, P, cls):
    """{parameter index: field} of the constructor, checking that every parameter is kept"""
    for f in P.fn.values():
        if f.get("record") == cls and f["kind"] == "ctor" and not f.get("copyctor") and not f.get("movector") and f.get("has_body") and len(f["params"]) >= 3:
            X = executed(R, P, f, anchors=ANCH)
            if X is None:
                return None
            out = {}
            r = P.records[cls]
            for p in X.returns:
                for i, prm in enumerate(f["params"]):
                    t = prm["t"]
                    key = {"string": "$s", "uptr": "$p"}.get(models.kind(t))
                    src = X.params[i]
                    init = X.entry.load(F(src, key)) if key else None
                    for fl in r["fields"]:
                        if key is not None:
                            got = p.st.load(F(("P", ("ap", "this")), fl["name"], key))
                            if models.kind(fl["t"]) == models.kind(t) and got == init:
                                out[i] = fl["name"]
                        elif strip_cv(fl["t"]) == strip_cv(t):
                            out[i] = fl["name"]
                    R.check("parts kept", i in out, "%s, parameter %s" % (at(f), prm["name"]), "the value of %s is not kept" % prm["name"])
            return out
    return None


def capture_rule(R, P, link):
    for f in spec.outermost(P, "hext::Capture", "capture"):
        cls = f["record"]
        fields = stored_fields(R, P, cls)
        if fields is None:
            R.skip(at(f), "no constructor with value, name and pipe")
            continue
        ctor_params = sorted(fields)
        strings = [i for i in ctor_params if i in fields and field_kind(P, cls, fields[i]) == "string"]
        pipes = [i for i in ctor_params if field_kind(P, cls, fields[i]) == "uptr"]
        if not strings or not pipes:
            R.skip(at(f), "constructor parameters are not recognised")
            continue
        name = fields[strings[-1]]
        attr = fields[strings[0]] if len(strings) > 1 else None
        func = [fields[i] for i in ctor_params if "function" in field_type(P, cls, fields[i])]
        pipe = fields[pipes[0]]
        X = executed(R, P, f, anchors=ANCH)
        if X is None:
            continue
        this = ("P", ("ap", "this"))
        pp = spec.ty(("rd", F(this, pipe, "$p")), "hext::StringPipe *")
        nm = X.entry.load(F(this, name, "$s"))
        for k, p in enumerate(X.returns):
            what = "%s, path %d" % (at(f), k + 1)
            if p.ret == ("ap", "none"):
                R.check("nothing dropped", absent(P, X, p, attr, func), what, "reports nothing although a value may be there")
                continue
            if not (p.ret[:2] == ("ap", "some") and p.ret[2][:2] == ("ap", "pair")):
                R.skip(what, "result %s is not a pair" % show(p.ret)[:100])
                continue
            key, val = p.ret[2][2], p.ret[2][3]
            R.check("own name", key == nm, what, "reported under %s" % show(key)[:100])
            t = canon(X, p.st, val)
            orig = None
            for s, truth in ((p.with_((mk_eq(pp, I0), True)), False), (p.with_((mk_eq(pp, I0), False)), True)):
                if s is None:
                    continue
                base = t
                if truth:
                    good = t[0] == "chain" and s.decide(mk_eq(t[1], pp)) is True
                    base = t[2] if t[0] == "chain" else t
                    if not good:
                        R.check("piped value", False, what, "with pipes the value is %s" % show_c(t))
                        continue
                elif t[0] in ("chain", "tr"):
                    R.check("piped value", False, what, "without pipes the value is %s" % show_c(t))
                    continue
                R.check("piped value", source(X, p, base, attr, func), what, "the value %s is not the %s" % (show_c(base), "attribute's" if attr else "function's result"))


def field_type(P, cls, name):
    return next((f["t"] for f in P.records[cls]["fields"] if f["name"] == name), "")


def field_kind(P, cls, name):
    return models.kind(field_type(P, cls, name))


def source(X, p, t, attr, func):
    """is the text t the captured attribute's value or the function's result for the node?"""
    n = X_node(X.I)
    if attr is not None:
        a = lookup(p)
        if a is None:
            return False
        val = ("rd", F(("P", a), "value"))
        good = t in (models.cstr(val), ("rd", F(("P", val), "$s"))) or t[0] == "ap" and t[1] in ("sv", "cstr") and t[2] == val or t == ("rd", F(val, "$s"))
        if not good:
            good = mentions(t, lambda x: x == val) and t[0] in ("rd", "ap") and t[:2] != ("ap", "cat") and t[:2] != ("ap", "substr")
        name = X.entry.load(F(("P", ("ap", "this")), attr, "$s"))
        el = mentions(a, lambda x: x == n)
        return bool(good and mentions(a, lambda x: x == name) and el)
    for e in events(X, p.st):
        if e[0] == "call" and e[1] == "invoke" and t == ("rd", F(("H", e[5], "invoke"), "$s")):
            fo = e[3] if e[3] is not None else None
            return tuple(e[4]) == (n,) and any(mentions(fo, lambda x: x == F(("P", ("ap", "this")), fn)) for fn in func)
    return False


def absent(P, X, p, attr, func):
    s, n = p.st, X_node(X.I)
    if s.decide(mk_eq(n, I0)) is True:
        return True
    if attr is not None:
        el = spec.enum(P, "GumboNodeType", "GUMBO_NODE_ELEMENT")
        if s.decide(mk_eq(spec.node_field(P, n, "type"), ("i", el))) is False:
            return True
        a = lookup(p)
        return a is not None and (s.decide(mk_eq(a, I0)) is True or s.decide(mk_eq(("rd", F(("P", a), "value")), I0)) is True)
    has = ("rd", F(("P", ("ap", "this")), func[0], "$has")) if func else None
    return has is not None and s.decide(has) is False


# ------------------------------------------------------------------ building chains
def building(R, P, link):
    """PatternValues::add_pipe<T>: the first pipe starts the chain, later ones are appended"""
    for f in sorted(P.fn.values(), key=lambda f: str(f.get("targs"))):
        if short(P.sq(f)) != "hext::PatternValues::add_pipe" or not f.get("has_body"):
            continue
        X = executed(R, P, f, anchors=ANCH)
        if X is None:
            continue
        this = ("P", ("ap", "this"))
        pp = spec.ty(("rd", F(this, "pipe", "$p")), "hext::StringPipe *")
        for k, p in enumerate(X.returns):
            what = "%s%s, path %d" % (at(f), f.get("targs") or "", k + 1)
            now = p.st.load(F(this, "pipe", "$p"))
            apps = p.calls(APPEND)
            for s, first in ((p.with_((mk_eq(pp, I0), True)), True), (p.with_((mk_eq(pp, I0), False)), False)):
                if s is None:
                    continue
                if first:
                    ok = not apps and is_new(s, now)
                else:
                    ok = len(apps) == 1 and apps[0][3] == pp and is_new(s, apps[0][4][0]) and s.decide(mk_eq(now, pp)) is True
                R.check("chains grow at the end", ok, what, "%s pipe: chain becomes %s, %d pipes appended" % ("first" if first else "later", show(now), len(apps)))


def is_new(s, v):
    return v[0] == "addr" and v[1][0] in ("N", "H", "T") or v[:2] == ("ap", "new") or v[0] == "new"


def c16(R):
    P = program()
    R.rule("every pipe once, in order", "StringPipe::pipe(s) is s transformed by this pipe, then by the rest of the chain, each once", 1)
    R.rule("appended last", "append adds the new pipe behind the last one and changes no other link", 1)
    R.rule("parts kept", "a capture keeps the value source, name and pipe it was constructed with", 6)
    R.rule("own name", "captured values are reported under the capture's name", 3)
    R.rule("piped value", "the reported value is the attribute's value or function's result, passed through the whole chain if there is one, else unchanged", 3)
    R.rule("nothing dropped", "a capture reports nothing only if node, attribute or function is absent", 4)
    R.rule("chains grow at the end", "while parsing, the first pipe starts the chain and every later one is appended", 6)
    link = link_field(P)
    pipe_rule(R, P, link)
    append_rule(R, P, link)
    capture_rule(R, P, link)
    building(R, P, link)
    return R.finish("other", "Every path of pipe, append, the captures and their constructors is compared with the chain's definition "
                    "(loops by an invariant relating the current pipe and text).", TRUST)
