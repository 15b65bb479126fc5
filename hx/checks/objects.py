"""C12 documents are released once; C14 copies are complete and independent."""
from .. import interp, spec, models
from ..dom import *
from ..facts import AnalysisBroken, rel, short, walk
from .safety import program
from .matching import executed, at, TRUST

THIS = ("P", ("ap", "this"))
PARSE, DESTROY = ("gumbo_parse", "gumbo_parse_with_options"), "gumbo_destroy_output"
ROOTS = ("hext::Match", "hext::Capture", "hext::ValueTest", "hext::StringPipe", "hext::Rule")


# ------------------------------------------------------------------ C12
def owner_fields(P):
    """{record: [raw pointer fields holding a parse tree]}"""
    out = {}
    for n, r in P.records.items():
        if r.get("inrepo"):
            fs = [f["name"] for f in r.get("fields", []) if "GumboInternalOutput" in f["t"] and is_ptr(f["t"])]
            if fs:
                out[n] = fs
    return out


def self_alias(f, n=0):
    def go(X, I, st):
        st.refs[(f["params"][n]["id"], X.fr.num)] = THIS
        I.params[n] = THIS
    return go


def distinct(X, I, st):
    """the operands are different objects"""
    for v in I.params.values():
        if isinstance(v, tuple) and v[0] == "P":
            st.assume(mk_eq(v[1], ("ap", "this")), False)


class Copying(spec.SpecClient):
    """looks into copy constructors once even when they are recursive"""

    def inline(self, I, fn, fr):
        if fn.get("copyctor") and fn.get("has_body") and fn["id"] not in fr.stack() and fn["id"] != getattr(self, "root", None):
            self.seen.add(fn["id"])
            return True
        return super().inline(I, fn, fr)


def look(R, P, f, aliased):
    c = Copying(P)
    c.root = f["id"]
    return executed(R, P, f, setup=self_alias(f) if aliased else distinct, client=c)


def tree_accounts(R, P, f, owner, fields, aliased):
    isdtor, isctor = f["kind"] == "dtor", f["kind"] == "ctor"
    X = look(R, P, f, aliased)
    if X is None:
        return
    objs = [] if f.get("static") or f.get("record") != owner else [THIS]
    for i, p in enumerate(f["params"]):
        if strip_cv(noref(p["t"])) == owner and X.params[i] not in objs:
            objs.append(X.params[i])
    for k, p in enumerate(X.paths):
        what = "%s%s, path %d" % (at(f), " (with itself)" if aliased else "", k + 1)
        s = p.st
        before = [X.entry.load(F(o, n), "GumboOutput *") for o in objs for n in fields if not (isctor and o == THIS)]
        made = [e[5] for e in p.trace if e[0] == "call" and e[1] in PARSE]
        gone = [e[4][-1] for e in p.trace if e[0] == "call" and e[1] == DESTROY]
        after = [s.load(F(o, n), "GumboOutput *") for o in objs for n in fields if not (isdtor and o == THIS) and not (isctor and p.kind == "T" and o == THIS)]
        loops = [e for e in p.trace if e[0] == "loop" and e[1] in X.loops and any(x[0] == "call" and (x[1] in PARSE or x[1] == DESTROY) for b in X.loops[e[1]].backs for x in trace_list(b.trace, X.loops[e[1]].start))]
        if loops:
            R.skip(what, "trees are made or destroyed in a loop")
            continue
        src = [t for t in before + made if s.decide(mk_eq(t, I0)) is not True]
        lent = [X.params[i] for i, prm in enumerate(f["params"]) if "GumboInternalOutput" in prm["t"] and is_ptr(prm["t"])]
        if p.kind == "R" and p.ret is not None and "GumboInternalOutput" in f["ret"]:
            after.append(p.ret)
        dst = [("kept", t) for t in after if s.decide(mk_eq(t, I0)) is not True] + [("destroyed", t) for t in gone]
        bad = None
        for h, t in dst:
            m = next((x for x in src if s.decide(mk_eq(x, t)) is True), None)
            if m is None:
                m = next((x for x in lent if s.decide(mk_eq(x, t)) is True), None)
                if m is not None:
                    lent.remove(m)
                    continue
                bad = "%s is %s but is not owned%s" % (show(t)[:80], h, " any more" if t in before + made else "")
                break
            src.remove(m)
        if bad is None and src:
            bad = "%s is neither kept nor destroyed" % ", ".join(show(t)[:80] for t in src)
        R.check("owned or released once", bad is None, what, bad or "")
        for t in gone:
            R.check("released if there", s.nonnull(t), what, "%s may be null when it is destroyed" % show(t)[:80])
        if (f.get("movector") or f.get("moveassign")) and p.kind == "R" and not aliased:
            for i, prm in enumerate(f["params"]):
                left = [s.load(F(X.params[i], n), "GumboOutput *") for n in fields]
                R.check("moved-from owns nothing", all(s.decide(mk_eq(t, I0)) is True for t in left), what, "the moved-from document still has %s" % ", ".join(show(t)[:60] for t in left))
            got = [s.load(F(THIS, n), "GumboOutput *") for n in fields]
            src0 = [X.entry.load(F(X.params[0], n), "GumboOutput *") for n in fields]
            R.check("ownership moves", all(s.decide(mk_eq(a, b)) is True for a, b in zip(got, src0)), what, "the document becomes %s" % ", ".join(show(t)[:60] for t in got))


def c12(R):
    P = program()
    R.rule("owned or released once", "on every path of every member function that touches a document's parse tree: trees owned before or parsed are owned afterwards by exactly one object or destroyed, once", 5)
    R.rule("released if there", "only an existing tree is destroyed", 1)
    R.rule("moved-from owns nothing", "after a move the source has no tree", 2)
    R.rule("ownership moves", "after a move the target has the source's tree", 2)
    R.rule("not copied", "documents cannot be copied or moved member by member", 2)
    R.rule("no root after move", "root() is the root of the owned tree and null without a tree", 2)
    owners = owner_fields(P)
    if not owners:
        smart(R, P)
    touched = set()
    for owner, fields in sorted(owners.items()):
        have = {}
        for f in P.fn.values():
            if f.get("record") != owner:
                continue
            for k in ("copyctor", "movector", "copyassign", "moveassign"):
                if f.get(k):
                    have[k] = f
            if not f.get("has_body") or f.get("defaulted"):
                continue
            uses = f["kind"] in ("ctor", "dtor") or any(n.get("f") in fields or n.get("k") == "call" and short(n.get("qn") or "") in PARSE + (DESTROY,) for n in walk([f["body"], f.get("inits")]))
            if f["kind"] == "method" and not f.get("const"):
                uses = True
            if not uses:
                continue
            touched.add(f["id"])
            tree_accounts(R, P, f, owner, fields, False)
            if f.get("moveassign") or f.get("copyassign"):
                tree_accounts(R, P, f, owner, fields, True)
        for k in ("copyctor", "movector", "copyassign", "moveassign"):
            f = have.get(k)
            if f is None:
                continue
            plain = f.get("defaulted") and not f.get("deleted") and not f.get("userprovided")
            R.check("not copied", not (plain or f.get("implicit") and not f.get("deleted")), "%s, %s of %s" % (rel(f["loc"]), k, owner),
                    "%s: the compiler's %s copies the tree's address, both objects release it" % (rel(f["loc"]), k))
        dt = [f for f in P.fn.values() if f.get("record") == owner and f["kind"] == "dtor"]
        R.check("owned or released once", any(f.get("has_body") and not f.get("defaulted") for f in dt), "destructor of " + owner, "%s has no destructor that releases its tree" % owner)
        for f in P.fn.values():
            if f.get("record") == owner and f["kind"] == "method" and f.get("const") and "Gumbo" in f["ret"] and "Node" in f["ret"] and f.get("has_body") and not f["params"]:
                X = executed(R, P, f)
                if X is None:
                    continue
                for k, p in enumerate(X.returns):
                    what = "%s, path %d" % (at(f), k + 1)
                    t = spec.ty(("rd", F(THIS, fields[0])), "GumboOutput *")
                    for s, null in ((p.with_((mk_eq(t, I0), True)), True), (p.with_((mk_eq(t, I0), False)), False)):
                        if s is None:
                            continue
                        want = I0 if null else ("rd", F(("P", t), "root"))
                        R.check("no root after move", s.decide(mk_eq(p.ret, want)) is True, what, "%s a tree root() is %s" % ("without" if null else "with", show(p.ret)))
    # trees made elsewhere
    for f in P.repo_functions():
        if f["id"] in touched or not f.get("has_body"):
            continue
        if any(n.get("k") == "call" and short(n.get("qn") or "") in PARSE + (DESTROY,) for n in walk([f["body"], f.get("inits")])):
            if f.get("record") in owners:
                continue
            tree_accounts(R, P, f, "?", [], False)
    return R.finish("other", "Ownership accounting on every path of the document's special members: parse results and previously owned handles must be matched "
                    "one to one by handles kept and handles destroyed; self-move is run with both operands bound to the same object.", TRUST)


def smart(R, P):
    for n, r in P.records.items():
        if r.get("inrepo") and any("GumboInternalOutput" in f["t"] for f in r.get("fields", [])):
            R.skip(n, "the tree is held by a class template; its member functions are not analysed")


# ------------------------------------------------------------------ C14
def family(P):
    out = set()
    for b in ROOTS:
        out.add(b)
        for r in P.derived(b):
            out.add(r if isinstance(r, str) else r["name"])
    return {n for n in out if n in P.records and P.records[n].get("inrepo")}


def all_fields(P, cls):
    r = P.records.get(cls)
    out = []
    if r:
        for b in r.get("bases", []):
            out += all_fields(P, b)
        out += [(cls, f) for f in r.get("fields", []) if not f.get("static")]
    return out


def new_of(X, s, p):
    """(type, source location) of an object made by copying"""
    if p[0] == "addr" and p[1][0] in ("T", "N"):
        for e in trace_all(X, s):
            if e[0] == "new" and e[1] == p[1]:
                return e[2]
    return None


def trace_all(X, s):
    yield from trace_list(s.trace)
    for L in X.loops.values():
        for b in L.backs:
            yield from trace_list(b.trace, L.start)


def clone_of(P, X, s, v, src, t):
    """is v a pointer to a copy of *src of the same dynamic type? True/False/None"""
    if v[0] == "rd" and v[1][0] == "F" and v[1][2] == "$p" and v[1][1][0] == "H":
        for e in trace_all(X, s):
            if e[0] == "call" and e[5] == v[1][1][1] and e[1].endswith("::clone"):
                return s.decide(mk_eq(e[3], src)) is True or e[3] == src
    if s.decide(mk_eq(v, src)) is True:
        return False
    nt = new_of(X, s, v)
    if nt is not None:
        rec = P.records.get(strip_cv(nt))
        o = s.origin(v[1])
        same = o == ("P", src) or o == s.origin(("P", src))
        if not same:
            return same_parts(P, X, s, v[1], ("P", src), strip_cv(nt))
        return not (rec or {}).get("polymorphic")
    return None


def same_parts(P, X, s, d, o, cls):
    """every field of d equals or is a copy of o's: True, or text of the first difference"""
    for c, f in all_fields(P, cls):
        r = part(P, X, s, F(d, f["name"]), F(o, f["name"]), f["t"])
        if r is not True:
            return r
    return True


def part(P, X, s, d, o, t):
    """True if the part at d is an own copy of what was at o on entry, None if unknown, False"""
    k = models.kind(t)
    e = X.entry
    if k == "uptr":
        sp = e.load(F(o, "$p"))
        spec.ty(sp, models.targs(t)[0] + " *")
        v = s.load(F(d, "$p"))
        if d == o and v == sp:
            return True
        for truth in (True, False):
            y = s.copy()
            if not y.assume(mk_eq(sp, I0), truth) or y.dead:
                continue
            if truth:
                if y.decide(mk_eq(v, I0)) is not True:
                    return False
            else:
                if y.decide(mk_eq(v, I0)) is True:
                    return False
                r = clone_of(P, X, y, v, sp, t)
                if r is not True:
                    return r
        return True
    if k == "seq" and models.kind(models.targs(t)[0]) == "uptr":
        q = s.load(F(d, "$q"))
        if d == o and q == e.load(F(o, "$q")):
            return True
        return cloned_list(P, X, s, q, o, models.targs(t)[0])
    a, b = models.value(X.I, s, d, t) if X.I.is_class(t) else s.load(d, t), models.value(X.I, e, o, t) if X.I.is_class(t) else e.load(o, t)
    if a == b or s.decide(mk_eq(a, b)) is True:
        return True
    if k == "opt":
        # the same object copied as a whole
        if s.origin(d) == e.origin(o):
            return True
    if X.I.is_class(t) and (s.origin(d) == e.origin(o)) and not any(under(x, d) for x in s.store):
        return True
    if X.I.is_class(t) and k is None:
        rec = P.records.get(strip_cv(t))
        if rec and rec.get("inrepo"):
            return same_parts(P, X, s, d, o, strip_cv(t))
    if s.origin(d)[0] == "H" and isinstance(s.origin(d)[1], int) and s.origin(d)[2] not in (None, "moved") and d not in s.store and k not in ("string", "seq"):
        return None
    return False


def under(x, loc):
    while x != loc:
        if x[0] not in ("F", "I"):
            return False
        x = x[1]
    return True


def cloned_list(P, X, s, q, o, et):
    """is q the list of clones of all elements of the list at o?"""
    n = X.entry.load(F(o, "$n"), "unsigned long")
    if s.decide(mk_eq(n, I0)) is True and q == models.EMPTY:
        return True
    if q == X.entry.load(F(o, "$q")):
        return False
    for L in X.loops.values():
        for loc, (phi, t, entry) in L.phis.items():
            if phi != q:
                continue
            if entry != models.EMPTY:
                return False
            vec = loc[1]
            idx = None
            for b in L.backs:
                new = b.load(loc, t)
                if not (new[:2] == ("ap", "cat") and len(new) == 4 and new[2] == phi and new[3][:2] == ("ap", "e")):
                    return False if new == phi or new[:2] == ("ap", "cat") else None
                v = new[3][2]
                el = None
                for x in subterms_of(L, b, v):
                    if x[0] == "rd" and x[1][0] == "F" and x[1][2] == "$p" and x[1][1][0] == "I" and x[1][1][1] == o:
                        el = x
                if el is None:
                    # a null entry stands for a null element
                    els = [x for x in b.dom if x[0] == "rd" and x[1][0] == "F" and x[1][2] == "$p" and x[1][1][0] == "I" and x[1][1][1] == o]
                    el = els[0] if els else None
                if el is None:
                    return False if b.decide(mk_eq(v, I0)) is True else None
                i = el[1][1][2]
                if idx is None:
                    idx = i
                if i != idx:
                    return None
                for truth in (True, False):
                    y = b.copy()
                    if not y.assume(mk_eq(el, I0), truth) or y.dead:
                        continue
                    if truth:
                        if y.decide(mk_eq(v, I0)) is not True:
                            return False
                    elif clone_of(P, X, y, v, el, et) is not True:
                        return clone_of(P, X, y, v, el, et)
            if idx is None:
                return None
            iv = [(l, w) for l, w in L.phis.items() if w[0] == idx]
            if not iv:
                return False
            il, (iphi, it, ientry) = iv[0]
            if X.entry.decide(mk_eq(ientry, I0)) is not True and ientry != I0:
                return False
            for b in L.backs:
                if lin_comb(to_lin(b.load(il, it)), 1, to_lin(iphi), -1) != (1, ()) and b.decide(mk_eq(b.load(il, it), ("lin", 1, ((iphi, 1),)))) is not True:
                    return False
            if L.range is None and not all(x.le(n, iphi) for x in [s]):
                return False
            if [o_ for o_ in L.others if o_[0] == "break"]:
                return False
            return True
    if q == models.EMPTY:
        return False
    return None


def subterms_of(L, b, v):
    out = []
    mentions(v, lambda x: out.append(x) if isinstance(x, tuple) and x and x[0] == "rd" else False)
    # results of calls: the object they were made for
    if v[0] == "rd" and v[1][0] == "F" and v[1][1][0] == "H" and isinstance(v[1][1][1], tuple):
        mentions(v[1][1][1], lambda x: out.append(x) if isinstance(x, tuple) and x and x[0] == "rd" else False)
    return out


SHARING = ("std::shared_ptr", "std::weak_ptr", "std::reference_wrapper", "std::basic_string_view", "std::string_view", "boost::shared_ptr", "std::span")


def c14(R):
    P = program()
    R.rule("every part copied", "after a user-written copy constructor or assignment every part, inherited ones included, equals the source's or is a clone of it", 10)
    R.rule("self-assignment", "assigning an object to itself leaves every part equal", 4)
    R.rule("parts are values", "classes with compiler-generated copies have no parts that would be shared", 10)
    R.rule("swap exchanges", "swap exchanges every part", 1)
    R.rule("clone keeps the type", "clone() copies the object as what it is", 15)
    fam = family(P)
    for cls in sorted(fam):
        rec = P.records[cls]
        specials = [f for f in P.fn.values() if f.get("record") == cls and (f.get("copyctor") or f.get("copyassign")) and not f.get("deleted")]
        for f in sorted(specials, key=lambda f: f["loc"]):
            if f.get("has_body") and not f.get("defaulted"):
                copies(R, P, f, cls, False)
                if f.get("copyassign"):
                    copies(R, P, f, cls, True)
        moves = [f for f in P.fn.values() if f.get("record") == cls and (f.get("movector") or f.get("moveassign")) and f.get("has_body") and not f.get("defaulted")]
        for f in moves:
            moved(R, P, f, cls)
        for f in rec.get("fields", []):
            t = f["t"]
            bad = any(x in t for x in SHARING) or (is_ptr(t) or is_ref(t)) and "(" not in t
            R.check("parts are values", not bad, "%s %s::%s" % (rel(f["loc"]), cls, f["name"]), "copies would share %s" % t)
        for f in P.fn.values():
            if f.get("record") == cls and short(f["qn"]).endswith("::swap") and f.get("has_body") and len(f["params"]) == 1:
                swaps(R, P, f, cls)
    clones(R, P, fam)
    return R.finish("other", "Every user-written copy operation and swap is interpreted on all paths; each field of the class and its bases is compared with the source's value on entry "
                    "(owned parts: result of clone() or copy constructor for the same element).", TRUST)


def copies(R, P, f, cls, aliased):
    X = look(R, P, f, aliased)
    if X is None:
        return
    o = X.params[0]
    for k, p in enumerate(X.returns):
        for c, fl in all_fields(P, cls):
            what = "%s%s, path %d, %s" % (at(f), " (with itself)" if aliased else "", k + 1, fl["name"])
            r = part(P, X, p.st, F(THIS, fl["name"]), F(o, fl["name"]), fl["t"])
            if r is None:
                R.skip(what, "the copy is not recognised")
                continue
            now = X.p_show(p.st, F(THIS, fl["name"]), fl["t"]) if hasattr(X, "p_show") else ""
            R.check("self-assignment" if aliased else "every part copied", r is True, what, "%s is not a copy of the source's %s" % (fl["name"], now))


def moved(R, P, f, cls):
    X = look(R, P, f, False)
    if X is None:
        return
    for k, p in enumerate(X.returns):
        for c, fl in all_fields(P, cls):
            d, o, t = F(THIS, fl["name"]), F(X.params[0], fl["name"]), fl["t"]
            what = "%s, path %d, %s" % (at(f), k + 1, fl["name"])
            ok = equal_now(X, p.st, d, o, t) or part(P, X, p.st, d, o, t)
            if ok is None:
                R.skip(what, "not recognised")
                continue
            R.check("every part copied", ok is True, what, "%s is not the source's" % fl["name"])


def equal_now(X, s, d, o, t):
    e = X.entry
    k = models.kind(t)
    if k == "uptr":
        return s.decide(mk_eq(s.load(F(d, "$p")), e.load(F(o, "$p")))) is True
    if k == "seq":
        return s.load(F(d, "$q")) == e.load(F(o, "$q"))
    if X.I.is_class(t):
        a, b = models.value(X.I, s, d, t), models.value(X.I, e, o, t)
        return a == b or s.origin(d) == e.origin(o)
    return s.decide(mk_eq(s.load(d, t), e.load(o, t))) is True


def swaps(R, P, f, cls):
    X = look(R, P, f, False)
    if X is None:
        return
    o = X.params[0]
    for k, p in enumerate(X.returns):
        if p.st.decide(mk_eq(o[1], ("ap", "this"))) is True:
            continue
        for c, fl in all_fields(P, cls):
            what = "%s, path %d, %s" % (at(f), k + 1, fl["name"])
            a, b = F(THIS, fl["name"]), F(o, fl["name"])
            R.check("swap exchanges", equal_now(X, p.st, a, b, fl["t"]) and equal_now(X, p.st, b, a, fl["t"]), what, "%s is not exchanged" % fl["name"])


def clones(R, P, fam):
    for cls in sorted(fam):
        rec = P.records[cls]
        if rec.get("abstract") or cls.startswith("hext::Cloneable<") or not rec.get("polymorphic"):
            continue
        f = final_clone(P, cls)
        if f is None:
            R.skip(cls, "no clone()")
            continue
        X = executed(R, P, f)
        if X is None:
            continue
        for k, p in enumerate(X.returns):
            what = "%s::clone (%s), path %d" % (cls, rel(f["loc"]), k + 1)
            nt = new_of(X, p.st, p.ret) if p.ret else None
            if nt is None:
                if p.ret is not None and p.st.decide(mk_eq(p.ret, I0)) is True:
                    R.check("clone keeps the type", False, what, "returns null")
                else:
                    R.skip(what, "what is returned is not recognised")
                continue
            if short(strip_cv(nt)) != short(cls):
                R.check("clone keeps the type", False, what, "a %s is cloned as %s" % (cls, nt))
                continue
            d = p.ret[1]
            o = p.st.origin(d)
            r = True if o == THIS or o == X.entry.origin(THIS) else same_parts(P, X, p.st, d, THIS, cls)
            if r is None:
                R.skip(what, "the copy is not recognised")
            else:
                R.check("clone keeps the type", r is True, what, "the clone is not a copy of the object")


def final_clone(P, cls, seen=()):
    for f in P.fn.values():
        if f.get("record") == cls and short(f["qn"]).endswith("::clone") and f.get("has_body"):
            return f
    for b in P.records.get(cls, {}).get("bases", []):
        f = final_clone(P, b)
        if f is not None:
            return f
    return None
