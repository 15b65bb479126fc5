"""C17 tag enumerations, C18 classification tables: decided for every value of a finite domain."""
from .. import interp, spec, models
from ..dom import *
from ..facts import AnalysisBroken, rel, short, walk
from .safety import program
from .matching import at, TRUST
from .serial import VOID, textvars

WRAP_NOT = set("a abbr acronym b bdo big cite code del dfn em fieldset font i img ins kbd label legend map object q s samp "
               "small span strike strong sub sup tt u var".split())
SPACE = {ord(c) for c in " \t\n\f\r"}


def consts(P, name):
    ks = [k for k in P.enums if short(k).split("::")[-1] == name]
    if len(ks) != 1:
        raise AnalysisBroken("enumeration %s not found" % name)
    return [(c, int(v)) for c, v in P.enums[ks[0]]["consts"]]


# ------------------------------------------------------------------ C17
def c17(R):
    P = program()
    R.rule("enumerators", "for every GUMBO_TAG_X there is HtmlTag::X with the same value, and no other but ANY", 100)
    R.rule("wildcard", "HtmlTag::ANY differs from every tag", 1)
    R.rule("exchange", "a tag converted between both enumerations keeps its value, whichever it is", 5)
    R.rule("names", "a rule's tag is what the HTML parser makes of the complete tag name; '*' is ANY", 2)
    g = {c[len("GUMBO_TAG_"):]: v for c, v in consts(P, "GumboTag")}
    g.pop("LAST", None)
    h = dict(consts(P, "HtmlTag"))
    for c, v in sorted(g.items()):
        R.check("enumerators", h.get(c) == v, "HtmlTag::%s" % c, "HtmlTag::%s is %s, the HTML parser's tag is %s" % (c, h.get(c, "missing"), v))
    anyv = h.get("ANY")
    R.check("wildcard", anyv is not None and anyv not in g.values(), "HtmlTag::ANY", "HtmlTag::ANY is %s, the tag of <%s>" % (anyv, [c.lower() for c, v in g.items() if v == anyv]))
    for c, v in sorted(h.items()):
        if c not in g and c != "ANY":
            R.check("enumerators", v not in g.values() and v != anyv, "HtmlTag::%s" % c, "HtmlTag::%s has the value of another tag" % c)
    values = sorted(set(g.values()) | {anyv})
    for f in P.repo_functions():
        if not f.get("has_body"):
            continue
        for e in walk([f.get("body")] + [i["e"] for i in f.get("inits", [])]):
            if e.get("k") == "cast" and tagtype(e.get("t")):
                exchange(R, P, f, e, values)
    for f in P.repo_functions():
        if f.get("has_body") and P.sq(f).startswith("hext::"):
            if P.sq(f).endswith("Parser::set_open_tag_or_throw") or f.get("kind") == "ctor" and P.sq(f) == "hext::Rule::Rule" and not f.get("copyctor") and not f.get("movector"):
                names(R, P, f)
    return R.finish("other", "Enumerators are compared one by one; every conversion between the enumerations is evaluated for every tag; the functions that turn names into tags are interpreted on every path.", TRUST)


def tagtype(t):
    t = strip_cv(t or "")
    return t.endswith("HtmlTag") or t.endswith("GumboTag")


class NoValue(Exception):
    pass


def leaf(e):
    """the tag-typed operand and a function of it"""
    k = e.get("k")
    if k in ("cast", "icast", "stdinit"):
        if k == "cast" and tagtype(e.get("t")) or True:
            sub = e.get("e")
            if sub is None:
                raise NoValue()
            if tagtype(sub.get("t")) and sub.get("k") not in ("cast", "icast", "cond", "binop"):
                x, f = sub, (lambda v: v)
            else:
                x, f = leaf(sub)
            bits = {"unsigned char": 8, "char": 8, "signed char": 8, "short": 16, "unsigned short": 16, "bool": 1}.get(strip_cv(e.get("t") or ""))
            if bits == 1:
                return x, lambda v: int(f(v) != 0)
            if bits:
                signed = not strip_cv(e["t"]).startswith("unsigned")
                half = 1 << bits - 1
                return x, lambda v: ((f(v) + half) % (2 * half)) - half if signed else f(v) % (2 * half)
            return x, f
    if k == "binop":
        a, b, op = e.get("l_"), e.get("r_"), e.get("op")
        for x, y, right in ((a, b, True), (b, a, False)):
            c = const(y)
            if c is None:
                continue
            z, f = leaf(x)
            ops = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "&": lambda p, q: p & q, "|": lambda p, q: p | q, "^": lambda p, q: p ^ q,
                   "*": lambda p, q: p * q, "<<": lambda p, q: p << q, ">>": lambda p, q: p >> q, "%": lambda p, q: p % q if q else 0}
            if op in ops:
                return z, (lambda v: ops[op](f(v), c)) if right else (lambda v: ops[op](c, f(v)))
    if tagtype(e.get("t")) and k not in ("cond", "binop"):
        return e, lambda v: v
    raise NoValue()


def const(e):
    while e and e.get("k") in ("cast", "icast"):
        e = e.get("e")
    if e and e.get("k") == "int":
        return int(e["v"])
    return None


def exchange(R, P, f, e, values):
    what = "%s, conversion at %s" % (at(f), e.get("l"))
    try:
        x, g = leaf(e)
    except NoValue:
        R.skip(what, "operand is not a tag")
        return
    bad = [v for v in values if g(v) != v]
    R.fn(f)
    R.check("exchange", not bad, what, "tag number %s becomes %s" % (bad[0], g(bad[0])) if bad else "")


def names(R, P, f):
    ps = [i for i, p in enumerate(f["params"]) if models.kind(p["t"]) == "string"]
    if not ps:
        return
    try:
        X = spec.Exec(P, f)
    except AnalysisBroken as ex:
        R.skip(at(f), str(ex)[:200])
        return
    R.fn(f)
    anyv = ("i", dict(consts(P, "HtmlTag"))["ANY"])
    n = 0
    for k, p in enumerate(X.returns):
        what = "%s, path %d" % (at(f), k + 1)
        loc = X.params[ps[0]]
        if loc[0] == "ap":
            continue
        name = X.entry.load(F(loc, "$s"))
        data, size = ("ap", "data", name), ("ap", "size", name)
        for l, v in p.st.store.items():
            if l[0] != "F" or l[2] != "tag_" or isinstance(v, dict) or v == X.entry.load(l):
                continue
            n += 1
            if v == anyv:
                odd = [t for t in p.st.dom if mentions(t, lambda y: y == name) and t != size and t[:2] != ("ap", "at")]
                star = ("eq", name, ("str", "*")) in odd or p.st.decide(mk_eq(name, ("str", "*"))) is True
                for txt in ("", "a", "**", "*a", "ab") if not star else ():
                    s = p.with_((mk_eq(size, ("i", len(txt))), True), *[(mk_eq(("ap", "at", name, ("i", q)), ("i", ord(ch))), True) for q, ch in enumerate(txt)])
                    if s is not None:
                        if odd:
                            R.skip(what, "when a name gives ANY is not recognised")
                        else:
                            R.violation("names", what, "the name '%s' gives ANY" % txt)
                        break
                else:
                    R.ok("names", what)
            elif v[:2] in (("ap", "gumbo_tag_enum"), ("ap", "gumbo_tagn_enum")):
                a = v[2]
                if a in (data, ("ap", "cstr", data), name) and (v[1] == "gumbo_tag_enum" or v[3] == size):
                    R.ok("names", what)
                elif mentions(a, lambda y: y[:2] in (("ap", "substr"), ("ap", "prefix"))) or v[1] == "gumbo_tagn_enum" and a == data and is_const(v[3]):
                    R.violation("names", what, "only a part of the name is looked up: %s" % show(a))
                else:
                    R.skip(what, "the name is looked up as %s" % show(a)[:150])
            else:
                other_tag(R, p, what, name, data, v)
    if not n:
        R.skip(at(f), "no tag is set")


def other_tag(R, p, what, name, data, v):
    """a tag that is not the result of the lookup itself"""
    looked = set()
    for t in list(p.st.dom) + [v]:
        for x in subterms(t):
            if x[:2] in (("ap", "gumbo_tag_enum"), ("ap", "gumbo_tagn_enum")) and x[2] in (data, ("ap", "cstr", data), name):
                looked.add(x)
    if len(looked) != 1:
        R.skip(what, "the tag %s is not recognised" % show(v)[:100])
        return
    x = next(iter(looked))
    same = p.st.decide(mk_eq(x, v))
    if same is None and v[0] != "i" and not lin_comb(to_lin(v), 1, to_lin(x), -1)[1]:
        same = False
    if same is None:
        R.skip(what, "the tag %s is not recognised" % show(v)[:100])
    else:
        R.check("names", same, what, "the name is looked up, but another tag is set: %s" % show(v)[:100])


# ------------------------------------------------------------------ C18
def c18(R):
    P = program()
    R.rule("void elements", "TagIsSelfClosing holds for exactly the void elements", 100)
    R.rule("text wrapping", "TagWrapsText holds for all but exactly the inline elements", 100)
    R.rule("whitespace", "IsSpace holds for exactly space, tab, line feed, form feed, carriage return", 256)
    R.rule("collapsing", "the text normalisation keeps exactly the characters that are not whitespace", 2)
    tags = [(c[len("GUMBO_TAG_"):].lower(), v) for c, v in consts(P, "GumboTag") if not c.endswith("_LAST")]
    R.notes["tags"] = len(tags)
    table(R, P, "hext::TagIsSelfClosing", "void elements", tags, lambda c, v: c in VOID, "<%s> is %s a void element")
    table(R, P, "hext::TagWrapsText", "text wrapping", tags, lambda c, v: c not in WRAP_NOT, "<%s> %s breaks words")
    chars = [("character %d" % v, v) for v in range(-128, 128)]
    table(R, P, "hext::IsSpace", "whitespace", chars, lambda c, v: v in SPACE, "%s is %s whitespace")
    for f in P.byqn("hext::TrimAndCollapseWs"):
        if f.get("has_body"):
            collapse(R, P, f)
    return R.finish("other", "Each classification is evaluated on every abstract path for every value of its argument.", TRUST)


def table(R, P, name, rule, values, want, text):
    for f in P.byqn(name):
        if not f.get("has_body"):
            continue
        try:
            X = spec.Exec(P, f, anchors={"-"})
        except AnalysisBroken as ex:
            R.skip(at(f), str(ex)[:200])
            continue
        R.fn(f)
        a = X.params[0]
        if a[0] in ("P", "V"):
            a = X.entry.load(a, strip_cv(f["params"][0]["t"]))
        for c, v in values:
            got = set()
            for p in X.returns:
                s = p.with_((mk_eq(a, ("i", v)), True))
                if s is None:
                    continue
                r = p.ret
                d = s.decide(r) if not is_const(r) else r[1] != 0
                got.add(d)
            what = "%s(%s)" % (at(f), c)
            w = want(c, v)
            if got == {w}:
                R.ok(rule, what)
            elif got == {not w}:
                R.violation(rule, at(f), "wrong for %s: says %s" % (c, "yes" if not w else "no"), key="%s:%s" % (rule, c))
            else:
                R.skip(what, "value not determined")


def collapse(R, P, f):
    try:
        X = spec.Exec(P, f)
    except AnalysisBroken as ex:
        R.skip(at(f), str(ex)[:200])
        return
    R.fn(f)
    todo = []
    for L in X.loops.values():
        for k, b in enumerate(L.backs):
            what = "%s, loop at %s, round %d" % (at(f), L.line, k + 1)
            chars = set()
            for e in trace_list(b.trace, L.start):
                if e[0] == "call" and e[1] == "hext::IsSpace":
                    chars.add(e[4][0])
            if len(chars) != 1:
                R.skip(what, "which character a round is about is not evident")
                continue
            c = next(iter(chars))
            kept = [l for l, phi, e in textvars(L) if mentions(b.load(l), lambda y: y == c) and not mentions(phi, lambda y: y == c)]
            moved = kept or [l for l, (phi, t, e) in L.phis.items() if any(mentions(p.ret, lambda y: y == phi) for p in X.returns) and b.load(l, t) != phi]
            todo.append((what, b, c, moved))
    if not any(m for w, b, c, m in todo):
        R.skip(at(f), "which characters are kept is not evident")
        todo = []
    for what, b, c, moved in todo:
        for v in range(-128, 128):
            s = b.copy()
            if not s.assume(mk_eq(c, ("i", v)), True) or s.dead or not s.assume(("ap", "hext::IsSpace", c), v in SPACE) or s.dead:
                continue
            if bool(moved) == (v in SPACE):
                R.violation("collapsing", what, "character %d is %s" % (v, "kept" if moved else "dropped"), key="collapsing:%s" % v)
                break
        else:
            R.ok("collapsing", what)
