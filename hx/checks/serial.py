"""C19 inner HTML, C20 stripped text: the text produced for a node, as a term."""
from .. import interp, spec, models
from ..dom import *
from ..facts import AnalysisBroken, rel, short
from .safety import program
from .matching import executed, at, TRUST

VOID = set("area base br col embed hr img input keygen link meta param source track wbr".split())
INNER, STRIP, TEXT = "hext::NodeInnerHtml", "hext::StripTags", "hext::NodeText"
KEEP = {"hext::TagWrapsText", "hext::TagIsSelfClosing", "hext::TrimAndCollapseWs", "hext::IsSpace"}


def subject(pts):
    """index of the only node or element parameter"""
    xs = [i for i, p in enumerate(pts) if ("GumboInternalNode" in p or "GumboElement" in p) and (is_ptr(p) or is_ref(p)) and "Vector" not in p]
    return xs[0] if len(xs) == 1 else None


class TextClient(spec.SpecClient):
    """calls of functions that write or return the text of a node become terms ("ap", "sub", function, node, ...)"""

    def __init__(self, P, root, deep=False):
        super().__init__(P, KEEP)
        self.root, self.deep = root, deep
        self.subs = {}

    def call(self, I, st, fr, e, fn, obj, args):
        if fn is None or not fn.get("inrepo") or not fn.get("has_body"):
            return None
        pts = [p["t"] for p in fn["params"]]
        i = subject(pts)
        # a function of its own: the root and everything that takes part in its recursion
        if i is None:
            return None
        if not (fn["id"] == self.root or I.P.sq(fn) in (STRIP, INNER) or (fn["id"] in fr.stack() if self.deep else I.recursive(fn["id"]))):
            return None
        streams = [j for j, x in enumerate(pts) if models.kind(x) in ("stream", "string") and is_ref(x) and "const" not in x]
        if len(streams) > 1 or not streams and models.kind(fn["ret"]) != "string":
            return None
        a = args[i]
        p = a if not interp.is_lv(a) else a[1][1] if a[1][0] == "P" else ("addr", a[1])
        if not is_ref(pts[i]):
            p = I.load(a, st, pts[i]) if interp.is_lv(a) else a
        rest = tuple(I.snapshot(st, x, pts[j]) if interp.is_lv(x) else x for j, x in enumerate(args) if j != i and j not in streams)
        t = ("ap", "sub", I.P.sq(fn), p) + rest
        self.subs[I.P.sq(fn)] = fn
        if streams:
            loc = args[streams[0]][1]
            old = models.S(st, loc)
            models.setS(st, loc, models.cat(old, t))
            return [(("LV", loc) if is_ref(fn["ret"]) else None, st)]
        out = models.newobj(st)
        models.setS(st, out, t)
        return [(("LV", out), st)]

    def inline(self, I, fn, fr):
        n = I.P.sq(fn)
        if n in KEEP or I.machine(fn) or fn["id"] in fr.stack():
            return False
        self.seen.add(fn["id"])
        return True


def textvars(L):
    for l, (phi, t, entry) in L.phis.items():
        if l[0] == "F" and l[2] == "$s":
            yield l, phi, entry
    for h in L.havocs:
        l = h if h[0] == "F" and h[2] == "$s" else F(h, "$s")
        if l not in L.phis:
            yield l, L.head.load(l), L.entry.load(l)


def items(X, t, base=None, depth=0):
    """list of pieces of a text; a loop's contribution is ("rep", loop, location, head)"""
    out = []
    for p in models.pieces(t):
        if p == base:
            continue
        hit = None
        if depth < 8:
            for L in X.loops.values():
                for l, phi, entry in textvars(L):
                    if phi == p:
                        hit = (L, l, phi, entry)
        if hit:
            L, l, phi, entry = hit
            out += items(X, entry, base, depth + 1)
            out.append(("rep", L, l, phi))
        else:
            out.append(p)
    return merge(out)


def merge(xs):
    out = []
    for x in xs:
        if out and x[0] == "str" and out[-1][0] == "str":
            out[-1] = ("str", out[-1][1] + x[1])
        else:
            out.append(x)
    return out


def known(xs):
    return all(x[0] in ("str", "rep") or x[:2] in (("ap", "cstr"), ("ap", "sv"), ("ap", "sub"), ("ap", "quoted"), ("ap", "chr"), ("ap", "substr"), ("ap", "prefix"), ("ap", "piece")) for x in xs)


def show_items(xs):
    return " ".join("(loop at %s)*" % x[1].line if x[0] == "rep" else show(x)[:70] for x in xs) or "nothing"


def verdict(R, rule, ok, xs, what, msg):
    if ok is None or not ok and not known(xs):
        R.skip(what, "the text %s is not recognised" % show_items(xs)[:200])
    else:
        R.check(rule, ok, what, msg)


def entry_of(loc_vec, t):
    """index if t is an entry of the Gumbo list at loc_vec"""
    if t[0] == "rd" and t[1][0] == "I" and t[1][1] == ("P", ("rd", F(loc_vec, "data"))):
        return t[1][2]
    return None


def repeated(R, rule, X, st, rep, vec, one, what, maybe_empty=False):
    """the loop visits every entry of the list once in order, and each round contributes one(state, pieces, entry)"""
    L, l, phi = rep[1], rep[2], rep[3]
    idx = None
    size = spec.ty(("rd", F(vec, "length")), "unsigned int")
    for k, b in enumerate(L.backs):
        w = "%s, loop at %s, round %d" % (what, L.line, k + 1)
        t = b.load(l)
        ps = models.pieces(t)
        if not ps or ps[0] != phi:
            verdict(R, rule, False, items(X, t, phi), w, "a round replaces what was written before: %s" % show_items(items(X, t, phi)))
            continue
        xs = items(X, ("ap", "cat") + tuple(ps[1:]) if len(ps) > 2 else ps[1] if len(ps) == 2 else models.EMPTY)
        els = set()
        for x in list(xs) + list(b.dom):
            mentions(x, lambda y: els.add(y) if isinstance(y, tuple) and y and y[0] == "rd" and entry_of(vec, y) is not None else False)
        els |= {v for v in b.store.values() if isinstance(v, tuple) and entry_of(vec, v) is not None}
        if len(els) != 1:
            steps = {phi2 for l2, (phi2, t2, e2) in L.phis.items() if l2 != l}
            if not xs or known(xs) and not els and not any(mentions(x, lambda y: y in steps) for x in xs):
                R.check(rule, False, w, "a round writes %s, nothing of an entry" % show_items(xs))
            else:
                R.skip(w, "which entry a round is about is not evident")
            continue
        el = next(iter(els))
        i = entry_of(vec, el)
        if idx is None:
            idx = i
        if i != idx:
            R.skip(w, "rounds look at different entries")
            continue
        ok, msg = one(b, xs, el)
        verdict(R, rule, ok, xs, w, msg)
    if idx is None:
        return
    w = "%s, loop at %s" % (what, L.line)
    bad = [o for o in L.others if o[0] in ("R", "return")]
    ends = list(L.exits) or [st]
    dirs = {spec.covers(X, L, size, idx, x) for x in ends}
    R.check(rule, dirs == {"forward"} and not bad, w, "the loop does not visit every entry once, in order")


def kinds(P, p, n):
    """[(kind name, state)] of node n on path p"""
    t = spec.ty(("rd", F(("P", n), "type")), "GumboNodeType")
    for name, v in P.enums[[k for k in P.enums if short(k).endswith("GumboNodeType")][0]]["consts"]:
        s = p.with_((mk_eq(n, I0), False), (mk_eq(t, ("i", v)), True))
        if s is not None:
            yield name[len("GUMBO_NODE_"):], s


def ptr_param(X, f):
    i = subject([p["t"] for p in f["params"]])
    a = X.params[i]
    return a[1] if a[0] == "P" else a


def text_of(n):
    return models.cstr(("rd", F(F(F(("P", n), "v"), "text"), "text")))


def children(n):
    return F(F(F(("P", n), "v"), "element"), "children")


def element_ptr(n):
    return ("addr", F(F(("P", n), "v"), "element"))


def run(R, P, f, deep=False):
    try:
        X = spec.Exec(P, f, client=TextClient(P, f["id"], deep))
    except AnalysisBroken as ex:
        R.skip(at(f), str(ex)[:200])
        return None, None
    R.fn(f)
    for i in X.c.seen:
        R.fn(P.fn[i])
    pts = [p["t"] for p in f["params"]]
    streams = [j for j, x in enumerate(pts) if models.kind(x) in ("stream", "string") and is_ref(x) and "const" not in x]
    if streams:
        loc = X.params[streams[0]]
        base = X.entry.load(F(loc, "$s"))

        def get(p):
            return items(X, p.st.load(F(loc, "$s")), base)
    else:
        def get(p):
            return items(X, p.ret)
    return X, get


def sub(fn, p, x):
    return x[:3] == ("ap", "sub", fn) and x[3] == p


# ------------------------------------------------------------------ C20
def c20(R):
    P = program()
    R.rule("text of a node", "for each kind of node: an element gives the texts of all its children, in order; text and whitespace nodes their complete text; comments, documents and absent nodes nothing", 5)
    R.rule("line breaks", "a line break is written before and after exactly those child elements that break words, and only if wrapping is asked for", 3)
    R.rule("same wrapping below", "children are stripped with the same wrapping", 2)
    R.rule("builtins", "@text is the wrapped text with whitespace collapsed, @strip-tags the plain text", 2)
    todo, done = [f for f in P.byqn(STRIP) if f.get("has_body")], {}
    while todo:
        f = todo.pop()
        if f["id"] not in done:
            done[f["id"]] = f
            todo += strip(R, P, f)
    for f in P.byqn(TEXT):
        if f.get("has_body"):
            wrapper(R, P, f)
    for g in P.globals.values() if isinstance(P.globals, dict) else P.globals:
        if short(g.get("qn", "")) == "hext::StripTagsBuiltin":
            for x in refs(g):
                f = P.fn.get(x)
                if f and f.get("has_body"):
                    wrapper(R, P, f, False)
    return R.finish("other", "The result of StripTags is computed as a term on every path (loops as a repeated term over the list of children) and compared, for every kind of node, with the definition.", TRUST)


def refs(g):
    from ..facts import walk
    return [n["fn"] for n in walk([g.get("init") or g.get("e")]) if n.get("k") == "fn" and n.get("fn")] + [n["id"] for n in walk([g.get("init") or g.get("e")]) if n.get("k") == "fn" and n.get("id")]


def strip(R, P, f):
    """by induction: f and the functions that stand for the text of a node in f are all compared with the definition"""
    X, get = run(R, P, f, True)
    if X is None:
        return []
    n = ptr_param(X, f)
    others = [X.params[i] for i, p in enumerate(f["params"]) if X.params[i] != n and strip_cv(p["t"]) == "bool"]
    wrap = others[0] if others else I0
    fname = set(X.c.subs) | {STRIP}
    seen = set()
    for k, p in enumerate(X.returns):
        xs = get(p)
        what = "%s, path %d" % (at(f), k + 1)
        if p.null(n):
            verdict(R, "text of a node", xs == [], xs, what + ", no node", "the text of no node is %s" % show_items(xs))
        for kind, s in kinds(P, p, n):
            w = what + ", " + kind.lower()
            if kind in ("TEXT", "WHITESPACE"):
                verdict(R, "text of a node", xs == [text_of(n)], xs, w, "the text of a %s node is %s" % (kind.lower(), show_items(xs)))
            elif kind == "ELEMENT":
                reps = [x for x in xs if x[0] == "rep"]
                if len(xs) == 1 and reps:
                    key = (xs[0][1].id, xs[0][2])
                    if key not in seen:
                        seen.add(key)
                        repeated(R, "text of a node", X, s, xs[0], children(n), lambda b, ys, c: child_text(R, P, X, b, ys, c, fname, wrap, what), what)
                else:
                    empty = s.decide(mk_eq(("rd", F(children(n), "length")), I0)) is True
                    verdict(R, "text of a node", xs == [] and empty, xs, w, "the text of an element is %s" % show_items(xs))
            else:
                verdict(R, "text of a node", xs == [], xs, w, "the text of a %s node is %s" % (kind.lower(), show_items(xs)))
    return list(X.c.subs.values())


def child_text(R, P, X, b, ys, c, fname, wrap, what):
    subs = [y for y in ys if y[:2] == ("ap", "sub")]
    if len(subs) != 1 or subs[0][2] not in fname or not (subs[0][3] == c or b.decide(mk_eq(subs[0][3], c)) is True):
        return False, "a child contributes %s" % show_items(ys)
    if len(subs[0]) > 4:
        w2 = subs[0][4]
        same = b.decide(mk_eq(w2, wrap)) is True
        R.check("same wrapping below", same, "%s, child" % what, "children are stripped with wrapping %s" % show(w2))
    t = spec.ty(("rd", F(("P", c), "type")), "GumboNodeType")
    el = b.decide(mk_eq(t, ("i", spec.enum(P, "GumboNodeType", "GUMBO_NODE_ELEMENT"))))
    tag = ("rd", F(F(F(("P", c), "v"), "element"), "tag"))
    br = b.decide(("ap", "hext::TagWrapsText", tag))
    asked = b.decide(wrap)
    rest = [y for y in ys if y[:2] != ("ap", "sub")]
    if not rest:
        ok = asked is False or el is False or br is False
        known_br = br is not None or any(mentions(x, lambda y: y == tag) for x in b.dom)
        if not ok and br is None and any(mentions(x, lambda y: y == tag) for x in b.dom):
            ok = None
        R_line(R, ok, what, "a child that may break words gets no line breaks (wrapping %s, element %s, breaks words %s)" % (asked, el, br))
        return True, ""
    if [y for y in ys] == [("str", "\n"), subs[0], ("str", "\n")]:
        ok = asked is True and el is True and br is True
        if not ok and br is None and asked is not False and el is not False and any(mentions(x, lambda y: y == tag) for x in b.dom):
            ok = None
        R_line(R, ok, what, "a child gets line breaks that may not break words (wrapping %s, element %s, breaks words %s)" % (asked, el, br))
        return True, ""
    return False, "a child contributes %s" % show_items(ys)


def R_line(R, ok, what, msg):
    if ok is None:
        R.skip(what, "whether a child breaks words is not decided by TagWrapsText")
    else:
        R.check("line breaks", ok, what, msg)


def wrapper(R, P, f, text=True):
    X, get = run(R, P, f)
    if X is None:
        return
    n = ptr_param(X, f)
    for k, p in enumerate(X.returns):
        what = "%s, path %d" % (at(f), k + 1)
        xs = [p.ret]
        if text:
            t = p.ret
            inner = None
            if t[0] == "rd" and t[1][1][0] == "H" and isinstance(t[1][1][1], tuple):
                for e in p.trace:
                    if e[0] == "call" and e[5] == t[1][1][1] and e[1] == "hext::TrimAndCollapseWs":
                        inner = e[4][0]
            if inner is None:
                R.skip(what, "result %s is not recognised" % show(t)[:100])
                continue
            R.check("builtins", inner == ("ap", "sub", STRIP, n, I1), what, "@text collapses %s" % show(inner))
        else:
            if known(xs):
                R.check("builtins", p.ret == ("ap", "sub", STRIP, n, I0), what, "@strip-tags is %s" % show(p.ret))
            else:
                R.skip(what, "result is not recognised")


# ------------------------------------------------------------------ C19
def c19(R):
    P = program()
    R.rule("children in order", "every child is serialised exactly once, in document order", 3)
    R.rule("kinds of nodes", "elements are serialised as elements; text, whitespace and comments completely, comments inside <!-- and -->", 5)
    R.rule("attributes in order", "every named attribute is written exactly once, in order, with its namespace prefix and value", 4)
    R.rule("element structure", "'<' name attributes, then '/>' for void elements, else '>' children '</' same name '>'", 3)
    roots = [f for f in P.byqn(INNER) if f.get("has_body")]
    todo, done = [], set()
    for f in roots:
        X, get = run(R, P, f)
        if X is None:
            continue
        n = ptr_param(X, f)
        for k, p in enumerate(X.returns):
            xs = get(p)
            what = "%s, path %d" % (at(f), k + 1)
            if p.null(n):
                verdict(R, "kinds of nodes", xs == [], xs, what, "the inner HTML of no node is %s" % show_items(xs))
            for kind, s in kinds(P, p, n):
                if kind in ("ELEMENT",):
                    if len(xs) == 1 and xs[0][0] == "rep":
                        repeated(R, "children in order", X, s, xs[0], children(n), node_item(todo), what)
                    else:
                        empty = s.decide(mk_eq(("rd", F(children(n), "length")), I0)) is True
                        verdict(R, "children in order", xs == [] and empty, xs, what, "the inner HTML of an element is %s" % show_items(xs))
                elif kind in ("TEXT", "WHITESPACE", "COMMENT"):
                    verdict(R, "kinds of nodes", xs == [], xs, what, "the inner HTML of a %s node is %s" % (kind.lower(), show_items(xs)))
        todo += [g for g in X.c.subs.values()]
    while todo:
        f = todo.pop()
        if f["id"] in done:
            continue
        done.add(f["id"])
        i = subject([p["t"] for p in f["params"]])
        X, get = run(R, P, f)
        if X is None:
            continue
        todo += [g for g in X.c.subs.values()]
        n = ptr_param(X, f)
        for k, p in enumerate(X.returns):
            xs = get(p)
            what = "%s, path %d" % (at(f), k + 1)
            if "GumboElement" in f["params"][i]["t"]:
                element(R, P, X, p.st, xs, ("P", n), what, todo)
                continue
            for kind, s in kinds(P, p, n):
                w = what + ", " + kind.lower()
                if kind in ("TEXT", "WHITESPACE"):
                    verdict(R, "kinds of nodes", xs == [text_of(n)], xs, w, "a %s node is written as %s" % (kind.lower(), show_items(xs)))
                elif kind == "COMMENT":
                    verdict(R, "kinds of nodes", xs == [("str", "<!--"), text_of(n), ("str", "-->")], xs, w, "a comment is written as %s" % show_items(xs))
                elif kind == "CDATA":
                    verdict(R, "kinds of nodes", xs == [], xs, w, "a CDATA section is written as %s" % show_items(xs))
                elif kind in ("ELEMENT", "TEMPLATE"):
                    if len(xs) == 1 and xs[0][:2] == ("ap", "sub") and xs[0][3] in (element_ptr(n), ("addr", F(F(("P", n), "v"), "element"))):
                        R.ok("kinds of nodes", w)
                    elif xs and xs[0][0] == "str" and xs[0][1].startswith("<"):
                        element(R, P, X, s, xs, F(F(("P", n), "v"), "element"), w, todo)
                    else:
                        verdict(R, "kinds of nodes", False, xs, w, "an element is written as %s" % show_items(xs))
    return R.finish("other", "The text written for a node is computed as a term on every path (loops as a repeated term over the list of children or attributes) and compared with the grammar of serialised HTML.", TRUST)


def node_item(todo):
    def one(b, xs, c):
        ok = len(xs) == 1 and xs[0][:2] == ("ap", "sub") and (xs[0][3] == c or b.decide(mk_eq(xs[0][3], c)) is True)
        return ok, "a child is written as %s" % show_items(xs)
    return one


def split(xs, n):
    """first n characters of the text as literal, rest; None if they are not literal"""
    if n == 0:
        return "", xs
    if xs and xs[0][0] == "str" and len(xs[0][1]) >= n:
        r = xs[0][1][n:]
        return xs[0][1][:n], ([("str", r)] if r else []) + xs[1:]
    return None, xs


def element(R, P, X, s, xs, e, what, todo):
    tag = spec.ty(("rd", F(e, "tag")), "GumboTag")
    rule = "element structure"

    def bad(msg):
        verdict(R, rule, False, xs, what, "%s: %s" % (msg, show_items(xs)[:300]))
    lit, r = split(xs, 1)
    if lit != "<" or not r:
        return bad("does not start with '<'")
    name, r = r[0], r[1:]
    if name[0] in ("str", "rep"):
        return bad("no name")
    unknown = ("i", spec.enum(P, "GumboTag", "GUMBO_TAG_UNKNOWN"))
    orig = mentions(name, lambda x: x[:1] == ("F",) and x[2] == "original_tag" and x[1] == e)
    norm = mentions(name, lambda x: x == tag)
    if not (orig or norm):
        return bad("the name is not the element's")
    if norm and not orig:
        R.check(rule, s.decide(mk_eq(tag, unknown)) is False, what + ", name", "an element with a custom name is written with an empty name")
    empty_a = s.decide(mk_eq(("rd", F(F(e, "attributes"), "length")), I0)) is True
    if r and r[0][0] == "rep":
        key = ("attrs", r[0][1].id)
        if key not in X.__dict__.setdefault("checked", set()):
            X.checked.add(key)
            repeated(R, "attributes in order", X, s, r[0], F(e, "attributes"), lambda b, ys, a: attribute(P, b, ys, a), what)
        r = r[1:]
    elif not empty_a:
        return bad("no attributes")
    void = s.decide(("ap", "hext::TagIsSelfClosing", tag))
    if void is None:
        # decided on the tag itself: C18 compares the table
        void = True if r == [("str", "/>")] or r == [("str", ">")] else False
        if any(mentions(x, lambda y: y[:1] == ("ap",) and tag in y[2:]) for x in s.dom):
            return R.skip(what, "a test of the tag is not recognised")
        ens = [k for k in P.enums if short(k).endswith("GumboTag")][0]
        for c, v in P.enums[ens]["consts"]:
            y = s.copy()
            if c.endswith("_LAST") or not y.assume(mk_eq(tag, ("i", v)), True) or y.dead:
                continue
            if (c[len("GUMBO_TAG_"):].lower() in VOID) != void:
                return R.check(rule, False, what, "a <%s> element may be written %s end tag" % (c[len("GUMBO_TAG_"):].lower(), "without" if void else "with an"))
    if void:
        ok = r in ([("str", "/>")], [("str", ">")], [("str", " />")])
        return verdict(R, rule, ok, xs, what, "a void element is written as %s" % show_items(xs)[:300])
    lit, r = split(r, 1)
    if lit != ">":
        return bad("the start tag is not closed")
    empty_c = s.decide(mk_eq(("rd", F(F(e, "children"), "length")), I0)) is True
    if r and r[0][0] == "rep":
        key = ("children", r[0][1].id)
        if key not in X.__dict__.setdefault("checked", set()):
            X.checked.add(key)
            repeated(R, "children in order", X, s, r[0], F(e, "children"), node_item(todo), what)
        r = r[1:]
    elif not empty_c:
        return bad("no children")
    ok = r == [("str", "</"), name, ("str", ">")]
    verdict(R, rule, ok, xs, what, "after the children comes %s" % show_items(r)[:200])


PREFIX = {"NONE": "", "XLINK": "xlink:", "XML": "xml:", "XMLNS": "xmlns:"}


def attribute(P, b, ys, a):
    nm, val = ("rd", F(("P", a), "name")), ("rd", F(("P", a), "value"))
    if not ys:
        return b.decide(mk_eq(nm, I0)) is True, "an attribute is not written"
    msg = "an attribute is written as %s" % show_items(ys)
    if not ys or ys[0][0] != "str" or not ys[0][1].startswith(" "):
        return False, msg
    prefix = ys[0][1][1:]
    ens = [k for k in P.enums if short(k).endswith("GumboAttributeNamespaceEnum")]
    t = spec.ty(("rd", F(("P", a), "attr_namespace")), "GumboAttributeNamespaceEnum")
    if ens:
        for c, v in P.enums[ens[0]]["consts"]:
            want = PREFIX.get(c.rsplit("_", 1)[-1])
            y = b.copy()
            if want is None or not y.assume(mk_eq(t, ("i", v)), True) or y.dead:
                continue
            if prefix != want:
                return False, "an attribute of namespace %s is written with prefix '%s'" % (c.rsplit("_", 1)[-1].lower(), prefix)
    ys = ys[1:]
    if not ys or ys[0] != models.cstr(nm):
        return False, msg
    ys = ys[1:]
    if not ys:
        return b.decide(mk_eq(val, I0)) is True, "the value of an attribute is not written"
    lit, ys = split(ys, 1)
    if lit != "=":
        return False, msg
    cv = models.cstr(val)
    good = [x for x in ys if mentions(x, lambda y: y == cv)]
    if len(good) == 1 and (len(ys) == 1 and ys[0][:2] == ("ap", "quoted") or [y for y in ys if y[0] == "str"] in ([("str", '"')] * 2, [("str", "'")] * 2) and len(ys) == 3):
        return True, msg
    if len(ys) == 1 and ys[0] == ("str", '""'):
        return b.decide(mk_eq(val, I0)) is True, msg
    return False, msg
