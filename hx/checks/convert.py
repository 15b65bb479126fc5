"""C24 JSON output, C25 results in the bindings: what is built from an extraction result, decided per round of every loop.

Containers that are built (lists, mappings, strings of the other language or of RapidJSON) are abstract values whose
content is a term: nil, snoc(list, item), map0, put(map, key, item), text(string), ref(container).  A loop shows an
arbitrary round: content before (an unknown) and after.  The multimap of a group is a sequence of entries with equal
names next to each other; runend(i) is the end of the run that starts at entry i."""
from .. import cli, facts, interp, models, spec
from ..bindings import Bindings
from ..dom import *
from ..facts import AnalysisBroken, rel, short, walk
from ..interp import is_lv
from .glue import RAISE
from .cmdline import equal

NIL = ("ap", "#nil")
MAP0 = ("ap", "#map0")
NULL = ("ap", "#null")


def snoc(l, x):
    return ("ap", "#snoc", l, x)


def put(m, k, x):
    return ("ap", "#put", m, k, x)


def upd(m, k, x):
    return ("ap", "#upd", m, k, x)


def ref(h):
    return ("ap", "#ref", h)


def unknown():
    return ("ap", "#unknown", ("n", fresh()))


def op(t):
    return t[1] if t is not None and t[0] == "ap" else None


def parts(t):
    return t[2:]


def entry_of(term):
    """(multimap, index, 'first' or 'second') of a string that is part of an entry of a multimap"""
    if term[0] == "rd" and term[1][0] == "F" and term[1][2] == "$s":
        l = term[1][1]
        if l[0] == "F" and l[2] in ("first", "second") and l[1][0] == "I":
            return l[1][1], l[1][2], l[2]
    return None


def varies(t):
    if not isinstance(t, tuple):
        return False
    return bool(t) and (t[0] == "phi" or any(varies(x) for x in t))


class Fail(Exception):
    def __init__(self, msg, line=None, sure=True):
        super().__init__(msg)
        self.msg, self.line, self.sure = msg, line, sure


class Builder(spec.SpecClient):
    """interprets the functions that build containers; self.line notes where things happened"""

    def __init__(self, P, within=()):
        super().__init__(P)
        self.within = within
        self.unmodelled = {}
        self.cut = []
        self.whole = []

    relate = True
    nils, maps = (NIL,), (MAP0,)

    def related(self, l1, t1, l2, t2):
        return (l1[0] == "F" and l1[2] == "#n") != (l2[0] == "F" and l2[2] == "#n")

    def inline(self, I, fn, fr):
        n = I.P.sq(fn)
        if self.within and fn["id"] not in self.within:
            return False
        if n.startswith(("SWIG_", "Swig", "_wrap", "swig::", "_zval", "zval_", "zend_")):
            return False
        return super().inline(I, fn, fr)

    # ---------------------------------------------------------------- the multimap
    def run_of(self, I, st, obj, arg):
        """(multimap, first, end) of the run of entries whose name is arg; arg is the name of the first entry"""
        if not is_lv(arg):
            return None
        v = models.S(st, arg[1])
        p = entry_of(v)
        if p is None or p[2] != "first":
            return None
        m, i, _ = p
        if models.S(st, F(("I", obj, i), "first")) != v:
            return None
        return m, i, self.runend(I, st, m, i)

    def runend(self, I, st, m, i):
        r = ("ap", "#runend", ("LV", m), i)
        TYPES[r] = "unsigned long"
        n = spec.size_of(None, st, m)
        st._setdom(r, lo=0, hi=2 ** 40)
        st.assume(mk_lt(i, r), True)
        st.assume(mk_lt(n, r), False)
        return r

    def iterator(self, st, obj, i, out=None):
        out = out or models.newobj(st)
        st.store[F(out, "$c")] = ("addr", obj) if obj[0] != "P" else obj[1]
        st.store[F(out, "$i")] = i
        return out

    def multimap(self, I, st, fr, e, fn, name, obj, args):
        if name.startswith(("std::_Rb_tree_const_iterator::", "std::_Rb_tree_iterator::")):
            last = name.rsplit("::", 1)[1]
            if fn.get("kind") == "ctor" or last.startswith(("_Rb_tree_const_iterator", "_Rb_tree_iterator")):
                if len(args) == 1 and is_lv(args[0]) and F(args[0][1], "$c") in st.store:
                    st.store[F(obj, "$c")] = st.store[F(args[0][1], "$c")]
                    st.store[F(obj, "$i")] = st.load(F(args[0][1], "$i"))
                    return [(None, st)]
                return None
            if last == "operator=" and is_lv(args[0]) and F(args[0][1], "$i") in st.store:
                st.store[F(obj, "$c")] = st.load(F(args[0][1], "$c"))
                st.store[F(obj, "$i")] = st.load(F(args[0][1], "$i"))
                return [(("LV", obj), st)]
            if last in ("operator*", "operator->"):
                return models.m_iterderef(I, st, fr, e, fn, obj, args)
            if last in ("operator++", "operator--"):
                return models.m_iterinc(I, st, fr, e, fn, obj, args)
            return None
        if not name.startswith("std::multimap::"):
            if name in ("std::operator==", "std::operator!=", "operator==", "operator!=") and len(args) == 2 and all(is_lv(a) and F(a[1], "$i") in st.store for a in args):
                r = mk_eq(st.load(F(args[0][1], "$i")), st.load(F(args[1][1], "$i")))
                return [(mk_not(r) if "!=" in name else r, st)]
            return None
        last = name.rsplit("::", 1)[1]
        if last in ("begin", "cbegin", "end", "cend"):
            return models.m_begin(I, st, fr, e, fn, obj, args)
        if last in ("size", "empty"):
            n = spec.size_of(None, st, obj)
            return [(n if last == "size" else mk_eq(n, I0), st)]
        if last in ("count", "lower_bound", "upper_bound", "equal_range", "contains", "find"):
            r = self.run_of(I, st, obj, args[0])
            if r is None:
                return None
            m, i, end = r
            if last == "count":
                return [(I.typed(add(end, i, -1), "unsigned long"), st)]
            if last == "contains":
                return [(I1, st)]
            if last == "equal_range":
                out = models.newobj(st)
                self.iterator(st, obj, i, F(out, "first"))
                self.iterator(st, obj, end, F(out, "second"))
                return [(("LV", out), st)]
            if last == "find":
                return None
            return [(("LV", self.iterator(st, obj, i if last == "lower_bound" else end)), st)]
        return None

    # ---------------------------------------------------------------- containers
    def cell(self, h):
        return F(("P", h), "#c")

    def new(self, I, st, name, content, t=None):
        h = ("ap", name, ("n", fresh()))
        if t:
            TYPES[h] = strip_cv(t)
        st.store[self.cell(h)] = content
        if content == NIL:
            I.LT[F(("P", h), "#n")] = "unsigned long"
            st.store[F(("P", h), "#n")] = I0
        return h

    def content(self, st, h):
        v = st.store.get(self.cell(h))
        return v if v is not None else ("ap", "#of", h)

    def length(self, I, st, h):
        return st.load(F(("P", h), "#n"), "unsigned long")

    def push(self, I, st, h, item):
        st.store[self.cell(h)] = snoc(self.content(st, h), item)
        I.LT[F(("P", h), "#n")] = "unsigned long"
        st.store[F(("P", h), "#n")] = add(self.length(I, st, h), I1)

    def text(self, I, st, fr, e, p, n=None):
        """content made from pointer and length"""
        s = None
        if p is not None and p[:2] == ("ap", "data"):
            s = p[2]
        elif p is not None and p[0] == "str":
            s = p
        if s is None:
            return ("ap", "#text", ("ap", "cstr", p or NULL))
        if n is None:
            self.note_cut(I, fr, e, s)
            return ("ap", "#cut", s) if s[0] != "str" else ("ap", "#text", s)
        if n == models.strsize(s) or st.decide(mk_eq(n, models.strsize(s))) is True:
            if not I.silent and s[0] != "str":
                self.whole.append((fr.fn, (e or {}).get("l"), s))
            return ("ap", "#text", s)
        self.note_cut(I, fr, e, s)
        return ("ap", "#cut", s)

    def note_cut(self, I, fr, e, s):
        if not I.silent:
            self.cut.append((fr.fn, (e or {}).get("l"), s))

    def forget(self, I, fr, name, e):
        if not I.silent:
            self.unmodelled[name] = (fr.fn, (e or {}).get("l"))

    def call(self, I, st, fr, e, fn, obj, args):
        if fn is None:
            return None
        name = I.P.sq(fn)
        r = self.multimap(I, st, fr, e, fn, name, obj, args)
        if r is not None:
            return r
        if name == "__builtin_constant_p":
            return [(I0, st)]
        return self.api(I, st, fr, e, fn, name, obj, args)

    def api(self, I, st, fr, e, fn, name, obj, args):
        return None


class Decider:
    """does a content stand for all groups, names and values"""

    def __init__(self, X):
        self.X, self.I, self.c = X, X.I, X.c
        self.owner = {}
        for L in X.loops.values():
            if not L.trial:
                for loc, (phi, t, entry) in L.phis.items():
                    self.owner[phi] = (L, loc)
        self.steps = 0

    def deref(self, st, item):
        n = 0
        while op(item) == "#ref" and n < 4:
            item = self.c.content(st, item[2])
            n += 1
        return item

    def text(self, st, item, what):
        c = self.deref(st, item)
        if op(c) == "#text":
            return c[2]
        if op(c) == "#cut":
            raise Fail("%s is not passed on with its own length" % what)
        raise Fail("%s is not a string made from the entry: %s" % (what, show(c)[:80]), sure=op(c) in ("#nil", "#map0", "#null", "#snoc", "#put", "#get", "#other", "#dangling", "#lossy"))

    def backs(self, L, st):
        """rounds that are possible in a call that ends in st: facts about what no loop changes hold throughout"""
        facts_ = [(t, st.bounds(t)) for t in st.dom if not varies(t)]
        out = []
        for b in L.backs:
            s = b.copy()
            ok = True
            for t, (lo, hi, ne, al) in facts_:
                if t in s.dom:
                    for v in sorted(ne or ()):
                        ok = ok and s.assume(mk_eq(t, ("i", v)), False)
                    if ok and al is not None:
                        ok = bool(al) and s._setdom(t, al=tuple(al)) is not False
                    if lo is not None and lo == hi:
                        ok = ok and s.assume(mk_eq(t, ("i", lo)), True)
                if not ok or s.dead:
                    ok = False
                    break
            if ok:
                out.append(b)
        return out

    def loop_of(self, content, what):
        if content not in self.owner:
            if op(content) in ("#nil", "#map0"):
                raise Fail("%s stays empty" % what)
            if op(content) in ("#snoc", "#put", "#upd"):
                raise Fail("%s is changed outside of the loop that fills it" % what, sure=True)
            raise Fail("%s: %s" % (what, show(content)[:100]), sure=False)
        return self.owner[content]

    def groups(self, content, st):
        """content lists all groups; returns the vector"""
        L, loc = self.loop_of(content, "the list of groups")
        phi, t, entry = L.phis[loc]
        if entry not in self.c.nils:
            raise Fail("the list of groups is not empty at the start: %s" % show(entry)[:60], L.line, sure=op(entry) in ("#snoc", "#map0", "#put"))
        vec = idx = None
        for b in self.backs(L, st):
            v = b.store.get(loc)
            if v is None or v == phi:
                raise Fail("a group is left out", L.line)
            if op(v) != "#snoc" or v[2] != phi:
                raise Fail("a group is not appended exactly once: %s" % show(v)[:100], L.line, sure=op(v) == "#snoc" and op(v[2]) == "#snoc" or op(v) in ("#nil", "#unshift") or op(v) == "#store" and not varies(v[3]))
            m = self.mapping(self.deref(b, v[3]), b)
            if m[0] != "I":
                raise Fail("the groups are not elements of a list: %s" % show(m), L.line, sure=False)
            if vec not in (None, m[1]) or idx not in (None, m[2]):
                raise Fail("rounds differ", L.line, sure=False)
            vec, idx = m[1], m[2]
            self.steps += 1
        if vec is None:
            raise Fail("the loop over the groups has no round", L.line, sure=False)
        if spec.covers(self.X, L, spec.size_of(self.X, st, vec), idx, st) != "forward":
            raise Fail("the loop does not visit every group once and in order", L.line)
        return vec

    def mapping(self, content, st):
        """content holds everything of one multimap; returns the multimap"""
        L, loc = self.loop_of(content, "the mapping of a group")
        phi, t, entry = L.phis[loc]
        if entry not in self.c.maps:
            raise Fail("the mapping of a group is not empty at the start: it would hold values of another group", L.line, sure=entry in self.owner or op(entry) in ("#put", "#upd"))
        m = cur = None
        for b in self.backs(L, st):
            self.steps += 1
            v = b.store.get(loc)
            if v is None or v == phi:
                raise Fail("an entry of a group is left out", L.line)
            if op(v) not in ("#put", "#upd") or v[2] != phi:
                raise Fail("a round does not add exactly one name: %s" % show(v)[:120], L.line, sure=op(v) in ("#put", "#upd") and op(v[2]) in ("#put", "#upd"))
            key = entry_of(self.text(b, v[3], "the name"))
            if key is None or key[2] != "first":
                raise Fail("the key is not the name of the entry: %s" % show(self.text(b, v[3], "the name"))[:80], L.line, sure=key is not None)
            r = spec.phi_of(L, key[1])
            if r is None:
                raise Fail("the entries are not visited by an iterator of the loop", L.line, sure=False)
            if m not in (None, key[0]) or cur not in (None, r[:2]) or r[2] != 0:
                raise Fail("rounds differ", L.line, sure=False)
            m, cur = key[0], r[:2]
            try:
                self.entry(L, b, v, phi, m, key[1], r[0])
            except Fail as f:
                f.line = f.line or L.line
                raise
        if m is None:
            raise Fail("the loop over the entries has no round", L.line, sure=False)
        cloc, cphi = cur
        if L.phis[cloc][2] != I0:
            raise Fail("the loop does not start at the first entry", L.line)
        if not st.le(spec.size_of(self.X, st, m), cphi):
            raise Fail("the loop may end before the last entry", L.line)
        return m

    def entry(self, L, b, v, phi, m, i, loc):
        after = b.load(loc, L.phis[loc][1])
        item = self.deref(b, v[4])
        has = ("ap", "#has", phi, self.deref(b, v[3]))
        known = b.decide(has)
        if op(v) == "#upd" or known is not None:
            return self.element(b, v, phi, m, i, after, item, has, known)
        end = ("ap", "#runend", ("LV", m), i)
        n = spec.size_of(self.X, b, m)
        if op(item) == "#text" or op(item) == "#cut":
            val = entry_of(self.text(b, v[4], "the value"))
            if val is None or val != (m, i, "second"):
                raise Fail("the value is not that of the entry", sure=val is not None)
            if not b.le(end, add(i, I1)):
                raise Fail("only one value is kept of a name that may have several")
        else:
            first, last = self.values(item, b, m)
            if first != i and not equal(b, first, i):
                raise Fail("the list of values does not start with the first value of the name")
            if not equal(b, last, end) and not b.decide(mk_eq(last, end)) is True:
                raise Fail("the list of values does not end with the last value of the name")
            if not b.lt(add(i, I1), end):
                raise Fail("a single value may be turned into a list")
        if after != end and not equal(b, after, end) and not (b.le(after, end) and b.le(end, after)):
            raise Fail("the next round does not start with the next name: %s" % show(after)[:60])

    def values(self, content, st, m):
        """(first, end) of the values a list holds"""
        L, loc = self.loop_of(content, "the list of values")
        phi, t, entry = L.phis[loc]
        if entry not in self.c.nils:
            raise Fail("the list of values is not empty at the start", L.line, sure=op(entry) in ("#snoc",) or entry in self.owner)
        cur = None
        for b in self.backs(L, st):
            self.steps += 1
            v = b.store.get(loc)
            if v is None or v == phi:
                raise Fail("a value is left out", L.line)
            if op(v) != "#snoc" or v[2] != phi:
                raise Fail("a value is not appended exactly once: %s" % show(v)[:100], L.line, sure=op(v) == "#snoc" and op(v[2]) == "#snoc" or op(v) in ("#nil", "#unshift") or op(v) == "#store" and not varies(v[3]))
            s = self.text(b, v[3], "a value")
            val = entry_of(s)
            if val is None or val[0] != m or val[2] != "second":
                raise Fail("what is appended is not a value of the name: %s" % show(s)[:60], L.line, sure=val is not None)
            r = spec.phi_of(L, val[1])
            if r is None:
                raise Fail("the same value is appended in every round: %s" % show(val[1])[:60], L.line)
            if cur not in (None, r):
                raise Fail("rounds differ", L.line, sure=False)
            cur = r
            step = lin_comb(to_lin(b.load(r[0], L.phis[r[0]][1])), 1, to_lin(r[1]), -1)
            if step != (1, ()):
                raise Fail("the loop over the values skips or repeats values", L.line)
        if cur is None:
            raise Fail("the loop over the values has no round", L.line, sure=False)
        # where the loop ended is what st knows about the iterator
        first = add(L.phis[cur[0]][2], ("i", cur[2]))
        return first, add(cur[1], ("i", cur[2]))

    def element(self, b, v, phi, m, i, after, item, has, known):
        """one entry at a time: a name that is there already gets its value appended"""
        key = has[3]
        old = ("ap", "#get", phi, key)
        if lin_comb(to_lin(after), 1, to_lin(i), -1) != (1, ()):
            raise Fail("the next round does not continue with the next entry")

        def is_value(x):
            s = self.text(b, x, "the value")
            val = entry_of(s)
            if val != (m, i, "second"):
                raise Fail("the value is not that of the entry: %s" % show(s)[:60], sure=val is not None)
        if known is False:
            if op(item) in ("#snoc",):
                raise Fail("a first value is turned into a list")
            is_value(v[4])
            return
        if known is None:
            raise Fail("a name is added without regard to whether it is there already")
        arr = ("ap", "#isarray", old)
        isarr = b.decide(arr)
        if op(v) == "#put":
            raise Fail("a name that is there already is added again")
        if op(item) != "#snoc":
            raise Fail("the value of a name that is there already is replaced: %s" % show(item)[:80])
        is_value(item[3])
        base = self.deref(b, item[2])
        if isarr is True:
            if base != old:
                raise Fail("the values there were are not kept: %s" % show(base)[:80])
        elif isarr is False:
            if base != snoc(NIL, old):
                raise Fail("the first value is not kept in front of the second: %s" % show(base)[:80])
        else:
            raise Fail("a value is appended without regard to whether the value there is a list", sure=True)


# -------------------------------------------------------------------- RapidJSON
RJ = "rapidjson::"


class JsonBuilder(Builder):
    """values of RapidJSON: F(loc, '#c') is the content; adding moves the added value"""

    def slot(self, loc):
        """(object, key) if loc is a member of an object"""
        while loc[0] == "F" and not isinstance(loc[2], tuple):
            if loc[2] not in ("value",):
                return None
            loc = loc[1]
        if loc[0] == "P" and loc[1][0] == "addr":
            return self.slot(loc[1][1])
        if loc[0] == "F" and loc[2][0] == "#slot":
            return loc[1], loc[2][1]
        return None

    def within_list(self, st, loc):
        """is this an element of a list of RapidJSON"""
        if loc[0] != "I":
            return False
        b = loc[1]
        return bool(self.slot(b)) or F(b, "#c") in st.store or self.within_list(st, b)

    def get(self, st, loc):
        s = self.slot(loc)
        if s:
            c = self.get(st, s[0])
            k = s[1]
            while op(c) in ("#put", "#upd"):
                if c[3] == k:
                    return c[4]
                return ("ap", "#get", c, k)
            return ("ap", "#get", c, k)
        if self.within_list(st, loc):
            c = self.get(st, loc[1])
            if op(c) == "#snoc" and equal(st, add(loc[2], I1), self.len(c)):
                return c[3]
            return ("ap", "#item", c, loc[2])
        v = st.store.get(F(loc, "#c"))
        if v is not None:
            return v
        h = st.load(F(loc, "#c"))
        if h[0] == "phi" or h[0] == "ap":
            return h
        if loc[0] == "I":
            b = st.store.get(F(loc[1], "#c"))
            if b is not None:
                return ("ap", "#item", b, loc[2])
        if loc[0] == "P":
            return ("ap", "#at", loc[1])
        return h

    def set(self, st, loc, v):
        s = self.slot(loc)
        if s:
            c = self.get(st, s[0])
            if op(c) in ("#put", "#upd") and c[3] == s[1]:
                self.set(st, s[0], c[:4] + (v,))
            else:
                self.set(st, s[0], upd(c, s[1], v))
            return
        if self.within_list(st, loc):
            c = self.get(st, loc[1])
            if op(c) == "#snoc" and equal(st, add(loc[2], I1), self.len(c)):
                self.set(st, loc[1], snoc(c[2], v))
            elif v != self.get(st, loc):
                self.set(st, loc[1], ("ap", "#changed", c, loc[2], v))
            return
        if loc[0] == "P" and op(strip_lin(loc[1])) == "#elems":
            self.unmodelled.setdefault("a change through an iterator", (None, None))
        st.store[F(loc, "#c")] = v

    def item(self, I, st, fr, e, a, t, moves=True):
        """content of an argument"""
        if is_lv(a):
            if "StringRef" in (t or ""):
                return st.load(F(a[1], "#c"))
            if models.kind(t) in ("string", "view"):
                return ("ap", "#text", models.S(st, a[1]))
            v = self.get(st, a[1])
            if moves:
                self.set(st, a[1], NULL)
            return v
        if a is not None and ("*" in (t or "") or a[:2] == ("ap", "data")):
            return self.text(I, st, fr, e, a)
        return ("ap", "#scalar", a or NULL)

    def key(self, I, st, fr, e, a, t):
        return self.item(I, st, fr, e, a, t, False)

    def len(self, c):
        if c == NIL:
            return I0
        v = ("ap", "#len", c)
        TYPES[v] = "unsigned int"
        return v

    def api(self, I, st, fr, e, fn, name, obj, args):
        if not name.startswith(RJ):
            return None
        cls, last = name[len(RJ):].split("::", 1) if "::" in name[len(RJ):] else ("", name[len(RJ):])
        pts = [p["t"] for p in fn["params"]]

        def val(i):
            return self.item(I, st, fr, e, args[i], pts[i])
        if cls in ("GenericValue", "GenericDocument"):
            if fn.get("kind") == "ctor" or last == cls:
                if not args:
                    st.store[F(obj, "#c")] = NULL
                    return [(None, st)]
                p = noref(pts[0])
                if "GenericValue" in p or "GenericDocument" in p:
                    st.store[F(obj, "#c")] = self.item(I, st, fr, e, args[0], pts[0], len(args) == 1)
                elif "Type" in p and args[0] is not None and args[0][0] == "i":
                    st.store[F(obj, "#c")] = {3: MAP0, 4: NIL, 0: NULL}.get(args[0][1], ("ap", "#scalar", args[0]))
                elif "*" in p and len(args) > 1 and "SizeType" in pts[1] or "*" in p and len(args) > 1 and strip_cv(pts[1]) in ("unsigned int", "unsigned long"):
                    if cls == "GenericDocument":
                        st.store[F(obj, "#c")] = NULL
                    else:
                        st.store[F(obj, "#c")] = self.text(I, st, fr, e, args[0], I.load(args[1], st))
                elif "Allocator" in p and cls == "GenericDocument":
                    st.store[F(obj, "#c")] = NULL
                else:
                    st.store[F(obj, "#c")] = self.item(I, st, fr, e, args[0], pts[0])
                return [(None, st)]
            if last in ("SetArray", "SetObject", "SetNull"):
                self.set(st, obj, {"SetArray": NIL, "SetObject": MAP0, "SetNull": NULL}[last])
                return [(("LV", obj), st)]
            if last == "SetString":
                if len(args) > 1 and strip_cv(pts[1]) in ("unsigned int", "unsigned long", "rapidjson::SizeType"):
                    self.set(st, obj, self.text(I, st, fr, e, args[0], I.load(args[1], st)))
                else:
                    self.set(st, obj, self.item(I, st, fr, e, args[0], pts[0]))
                return [(("LV", obj), st)]
            if last == "PushBack":
                x = val(0)
                self.set(st, obj, snoc(self.get(st, obj), x))
                return [(("LV", obj), st)]
            if last == "AddMember":
                k, x = val(0), val(1)
                self.set(st, obj, put(self.get(st, obj), k, x))
                return [(("LV", obj), st)]
            if last == "HasMember":
                t = ("ap", "#has", self.get(st, obj), self.key(I, st, fr, e, args[0], pts[0]))
                TYPES[t] = "bool"
                return [(t, st)]
            if last == "FindMember":
                out = models.newobj(st)
                k = self.key(I, st, fr, e, args[0], pts[0])
                st.store[F(out, "#m")] = ("addr", F(obj, ("#slot", k)))
                st.store[F(out, "#has")] = ("ap", "#has", self.get(st, obj), k)
                TYPES[st.store[F(out, "#has")]] = "bool"
                return [(("LV", out), st)]
            if last in ("MemberEnd", "MemberBegin"):
                out = models.newobj(st)
                st.store[F(out, "#m")] = ("ap", "#" + last)
                return [(("LV", out), st)]
            if last == "operator[]":
                t = strip_cv(noref(pts[0]))
                if INTS.get(t):
                    return [(("LV", ("I", obj, I.load(args[0], st))), st)]
                return [(("LV", F(obj, ("#slot", self.key(I, st, fr, e, args[0], pts[0])))), st)]
            if last == "operator=":
                self.set(st, obj, val(0))
                return [(("LV", obj), st)]
            if last == "Swap":
                a, b = self.get(st, obj), self.get(st, args[0][1])
                self.set(st, obj, b)
                self.set(st, args[0][1], a)
                return [(("LV", obj), st)]
            if last == "CopyFrom":
                self.set(st, obj, self.item(I, st, fr, e, args[0], pts[0], False))
                return [(("LV", obj), st)]
            if last == "Move":
                return [(("LV", obj), st)]
            if last in ("IsArray", "IsString", "IsObject", "IsNull"):
                c = self.get(st, obj)
                k = {"#text": "IsString", "#nil": "IsArray", "#snoc": "IsArray", "#map0": "IsObject", "#put": "IsObject", "#upd": "IsObject", "#null": "IsNull"}.get(op(c))
                if k:
                    return [(("i", int(k == last)), st)]
                t = ("ap", "#isarray", c)
                TYPES[t] = "bool"
                if op(c) == "#get" and last in ("IsArray", "IsString"):
                    return [(t if last == "IsArray" else mk_not(t), st)]
                return None
            if last in ("Empty", "Size"):
                n = self.len(self.get(st, obj))
                return [(mk_eq(n, I0) if last == "Empty" else n, st)]
            if last in ("Begin", "End"):
                c = self.get(st, obj)
                p = ("ap", "#elems", c)
                TYPES[p] = "rapidjson::Value *"
                return [(p if last == "Begin" else add(p, self.len(c)), st)]
            if last in ("GetArray",):
                out = models.newobj(st)
                c = self.get(st, obj)
                st.store[F(out, "#c")] = c
                I.setv(st, F(out, "$n"), self.len(c), "unsigned long")
                return [(("LV", out), st)]
            if last == "Accept":
                w = args[0][1] if is_lv(args[0]) else None
                b = st.load(F(w, "#buf")) if w else None
                if b is None or b[0] != "addr":
                    self.forget(I, fr, name, e)
                    return None
                t = ("ap", "#json", self.get(st, obj))
                I.event(st, "json", b[1], t, (fr.fn["qn"], (e or {}).get("l")))
                st.store[F(b[1], "$s")] = models.cat(models.S(st, b[1]), t)
                return [(I1, st)]
            if last == "GetAllocator":
                return [(("LV", ("P", ("ap", "#allocator"))), st)]
            if last in ("Reserve", "MemberReserve"):
                return [(("LV", obj), st)]
            if fn.get("const"):
                return None
            # anything else may change the value
            self.forget(I, fr, name, e)
            self.set(st, obj, unknown())
            return None
        if cls in ("GenericStringRef",) and (fn.get("kind") == "ctor" or last == cls):
            n = I.load(args[1], st) if len(args) > 1 else None
            if is_lv(args[0]):
                return None
            st.store[F(obj, "#c")] = self.text(I, st, fr, e, args[0], n)
            return [(None, st)]
        if name == "rapidjson::StringRef":
            out = models.newobj(st)
            if is_lv(args[0]):
                st.store[F(out, "#c")] = ("ap", "#text", models.S(st, args[0][1]))
            else:
                st.store[F(out, "#c")] = self.text(I, st, fr, e, args[0], I.load(args[1], st) if len(args) > 1 else None)
            return [(("LV", out), st)]
        if cls == "GenericMemberIterator":
            if last in ("operator->", "operator*"):
                m = st.load(F(obj, "#m"))
                return [(m if last == "operator->" else ("LV", models.loc_of(m)), st)]
            if last in ("operator==", "operator!=") and is_lv(args[0]):
                a, b = st.load(F(obj, "#m")), st.load(F(args[0][1], "#m"))
                o = obj if b == ("ap", "#MemberEnd") else args[0][1] if a == ("ap", "#MemberEnd") else None
                if o is not None and F(o, "#has") in st.store:
                    t = st.store[F(o, "#has")]
                    return [(t if last == "operator!=" else mk_not(t), st)]
                return None
            if fn.get("kind") == "ctor" and len(args) == 1 and is_lv(args[0]):
                st.copy_obj(obj, args[0][1])
                return [(None, st)]
            return None
        if cls == "GenericStringBuffer":
            if fn.get("kind") == "ctor" or last == cls or last == "Clear":
                st.store[F(obj, "$s")] = models.EMPTY
                return [(None, st)]
            if last == "GetString":
                return models.m_cstr(I, st, fr, e, fn, obj, args)
            if last in ("GetSize", "GetLength"):
                return [(models.strsize(models.S(st, obj)), st)]
            return None
        if cls == "BasicOStreamWrapper" and args and is_lv(args[0]):
            st.store[F(obj, "#buf")] = ("addr", args[0][1])
            return [(None, st)]
        if cls in ("Writer", "PrettyWriter"):
            if fn.get("kind") == "ctor" or last == cls:
                if args and is_lv(args[0]):
                    b = args[0][1]
                    via = st.store.get(F(b, "#buf"))
                    st.store[F(obj, "#buf")] = via if via is not None else ("addr", b)
                return [(None, st)]
            if last in ("SetIndent", "SetFormatOptions", "SetMaxDecimalPlaces"):
                return [(("LV", obj), st)]
            if last in ("Flush", "IsComplete"):
                return None
            if last == "Reset" and args and is_lv(args[0]):
                st.store[F(obj, "#buf")] = ("addr", args[0][1])
                return [(None, st)]
            self.forget(I, fr, name, e)
            b = st.load(F(obj, "#buf"))
            if b[0] == "addr":
                st.store[F(b[1], "$s")] = models.cat(models.S(st, b[1]), unknown())
            return None
        return None


def pieces_after(text, start):
    """pieces of text behind start"""
    p, s = models.pieces(text), models.pieces(start)
    if p[:len(s)] != s:
        return None
    return list(p[len(s):])


def json_of(p):
    """content printed by one piece of text"""
    for _ in range(4):
        if op(p) == "#json":
            return p[2]
        if op(p) in ("cstr", "data", "sv"):
            p = p[2]
        else:
            return None
    return None


def strip_lin(t):
    """the pointer a sum starts from"""
    for x, k in to_lin(t)[1]:
        if k == 1 and op(x) == "#elems":
            return x
    return t


def strip_content(i):
    """an iterator without the content it goes over"""
    if not isinstance(i, tuple):
        return i
    if op(i) in ("#elems", "#len"):
        return i[:2]
    return tuple(strip_content(x) for x in i)


def blank(p):
    return p[0] == "str" and not p[1].strip(" \t\r\n")


class Printed:
    """what a path has printed"""

    def __init__(self, D, out):
        self.D, self.out, self.X = D, F(out, "$s"), D.X

    def path(self, p):
        st = p.st
        start = self.X.entry.load(self.out)
        text = self.settled(st.load(self.out), st)
        ps = pieces_after(text, start)
        if ps is not None:
            ps = [x for x in ps if not blank(x)]
            if not ps:
                # nothing printed: there was nothing
                for c in self.empties(st):
                    self.D.groups(c, st)
                    return "nothing, for no groups"
                raise Fail("nothing is printed although there may be groups")
            if len(ps) == 1 and json_of(ps[0]) is not None:
                self.D.groups(json_of(ps[0]), st)
                return "one array"
            raise Fail("printed is %s" % show(text)[:120], sure=any(json_of(x) is not None for x in ps))
        rest, tail = text, []
        for x in reversed(models.pieces(text)):
            if blank(x):
                tail.append(x)
            else:
                break
        ps = models.pieces(text)[:len(models.pieces(text)) - len(tail)]
        if len(ps) != 1 or ps[0] not in self.D.owner:
            raise Fail("printed is %s" % show(text)[:120], sure=False)
        return self.lines(ps[0], st)

    def settled(self, text, st):
        """text without loops that printed nothing"""
        p = models.pieces(text)
        while p and p[0] in self.D.owner:
            L, loc = self.D.owner[p[0]]
            if any(b.load(loc, L.phis[loc][1]) != p[0] for b in self.D.backs(L, st)):
                break
            p = models.pieces(L.phis[loc][2]) + p[1:]
        return models.cat(*p)

    def empties(self, st):
        """lists that are known to have no element"""
        for c in self.D.owner:
            t = self.D.c.len(c)
            if st.decide(mk_eq(t, I0)) is True:
                yield c

    def lines(self, phi, st):
        """one object per round"""
        L, loc = self.D.owner[phi]
        t, entry = L.phis[loc][1:]
        ps = pieces_after(entry, self.X.entry.load(self.out))
        if ps is None or any(not blank(x) for x in ps):
            raise Fail("something is printed before the objects", L.line, sure=False)
        how = None
        for b in self.D.backs(L, st):
            ps = pieces_after(b.load(loc, t), phi)
            if ps is None:
                raise Fail("printed is %s" % show(b.load(loc, t))[:120], L.line, sure=False)
            js = [json_of(x) for x in ps if not blank(x)]
            if not js:
                raise Fail("an object is not printed", L.line)
            if len(js) != 1:
                raise Fail("an object is not printed exactly once", L.line, sure=None not in js)
            if js[0] is None:
                raise Fail("printed is %s" % show(b.load(loc, t))[:120], L.line, sure=False)
            if not any(blank(x) for x in ps):
                raise Fail("no line end is printed between the objects", L.line)
            c, i, kind = js[0], None, None
            if op(c) == "#item":
                base, i, kind = c[2], c[3], "index"
            elif op(c) == "#at":
                base, i, kind = None, c[2], "pointer"
            elif c in self.D.owner:
                m = self.D.mapping(c, b)
                if m[0] != "I":
                    raise Fail("the groups are not elements of a list", L.line, sure=False)
                if spec.covers(self.X, L, spec.size_of(self.X, st, m[1]), m[2], st) != "forward":
                    raise Fail("the loop does not print every group once and in order", L.line)
                how = "one object per group, while it is built"
                continue
            else:
                raise Fail("printed is %s" % show(c)[:100], L.line, sure=False)
            if not varies(strip_content(i)):
                raise Fail("the same object is printed in every round", L.line)
            r = spec.phi_of(L, i)
            if r is None or r[2] != 0:
                raise Fail("the objects are not visited by an iterator of the loop", L.line, sure=False)
            iloc, iphi, _ = r
            first, it = L.phis[iloc][2], L.phis[iloc][1]
            if kind == "pointer":
                if op(first) != "#elems":
                    raise Fail("the loop does not start at the first object: %s" % show(first)[:80], L.line, sure=op(to_lin(first)[1][0][0]) == "#elems" if to_lin(first)[1] else False)
                base = first[2]
                end = add(first, self.D.c.len(base))
            else:
                if first != I0:
                    raise Fail("the loop does not start at the first object", L.line)
                end = self.D.c.len(base)
            if lin_comb(to_lin(b.load(iloc, it)), 1, to_lin(iphi), -1) != (1, ()):
                raise Fail("the loop skips or repeats objects", L.line)
            if not (st.decide(mk_eq(iphi, end)) is True or st.le(end, iphi)):
                raise Fail("the loop may end before the last object", L.line)
            self.D.groups(base, L.entry)
            how = "one object per line"
        if how is None:
            raise Fail("the loop that prints has no round", L.line, sure=False)
        return how


def program():
    return cli.program()


def c24(R):
    P = program()
    R.rule("complete", "on every path of PrintJson the text printed is the JSON of a list to which every group was appended once, or of each group on a line of its own, in order", minimum=1)
    R.rule("values", "in every round the mapping of a group gains exactly the name and value of the current entry: a new name as string, a second value as list behind the first, further values at the end", minimum=1)
    fs = [f for f in P.byqn("htmlext::PrintJson") if f.get("has_body")]
    if not fs:
        fs = [f for f in P.fn.values() if f.get("has_body") and f.get("inrepo") and any(n.get("k") == "call" and "rapidjson" in (n.get("qn") or "") and (n.get("qn") or "").endswith("AddMember") for n in walk(f["body"]))]
    if not fs:
        R.skip("PrintJson", "no function that builds JSON values found")
    for f in fs:
        R.fn(f)
        analyse(R, P, f, JsonBuilder(P), "complete", "values", printed=True)
    return R.finish("other", "abstract interpretation of the conversion: contents of RapidJSON values as terms, every loop decided for an arbitrary round", TRUST)


TRUST = ["RapidJSON: PushBack and AddMember append and move their argument, operator[] and HasMember find the member of that name, Accept prints the value",
         "std::multimap keeps entries with equal names next to each other in order of insertion"]


def analyse(R, P, f, client, whole, each, printed=False):
    try:
        X = spec.Exec(P, f, client=client)
    except AnalysisBroken as e:
        R.skip(f["qn"], str(e))
        return
    D = Decider(X)
    out = None
    for p, v in zip(f["params"], range(9)):
        if "ostream" in p["t"]:
            out = X.params[v]
    if out is None:
        R.skip(f["qn"], "no stream parameter")
        return
    oloc = out[1] if is_lv(out) else out
    Pr = Printed(D, oloc)
    n = 0
    for p in X.returns:
        n += 1
        try:
            how = Pr.path(p)
            R.ok(whole, "%s: path %d: %s" % (short(f["qn"]), n, how))
        except Fail as e:
            where = "%s:%s %s" % (rel(f["loc"]).split(":")[0], e.line or rel(f["loc"]).split(":")[-1], short(f["qn"]))
            if not e.sure or client.unmodelled:
                R.skip("%s path %d" % (short(f["qn"]), n), e.msg + ("; not modelled: " + ", ".join(sorted(client.unmodelled)) if client.unmodelled else ""))
            else:
                R.violation(whole, where, e.msg, key="%s: %s" % (short(f["qn"]), e.msg[:60]))
    if D.steps:
        R.ok(each, "%s: %d rounds of loops over groups, entries and values" % (short(f["qn"]), D.steps))
    return X, D


# -------------------------------------------------------------------- the bindings
def pointer_of(z):
    """location a zval* or Napi object argument stands for"""
    if z is None:
        return None
    return z[1] if is_lv(z) else models.loc_of(z)


class GlueBuilder(Builder):
    """containers of the other language are handles: terms whose content is F(P(h), '#c')"""
    lang = ""
    nils, maps = (NIL,), (MAP0,)
    ints = ()     # functions that return an int that is not 0 on failure

    def __init__(self, P, glue, raises):
        super().__init__(P, glue)
        self.raises = raises
        self.bad = {}

    def report(self, I, fr, e, msg):
        if not I.silent:
            self.bad.setdefault(msg, (fr.fn, (e or {}).get("l")))

    def is_handle(self, st, h):
        return h is not None and not is_lv(h) and self.cell(h) in st.store

    def result(self, I, st, fr, e, p):
        """(kind, handle): 'value' with a handle, 'null', 'other'"""
        h = p.ret
        if h is None or is_lv(h):
            return "other", None
        if h == I0:
            return "null", None
        return ("value", h) if self.is_handle(p.st, h) else ("other", h)

    def use(self, I, st, fr, e, h, what):
        return self.is_handle(st, h)

    def status(self, I, st, fr, e, name):
        """result of a function that fails with a value other than 0"""
        r = ("ap", name, ("n", fresh()))
        TYPES[r] = "int"
        I.event(st, "need0", r, name, (e or {}).get("l"))
        return r

    def foreign(self, I, st, fr, name, e, obj, args):
        """a function without model that is given a container"""
        for a in [obj] + list(args):
            if a is None:
                continue
            if not is_lv(a) and self.is_handle(st, a):
                self.poison(I, st, fr, name, e, a)

    def poison(self, I, st, fr, name, e, h):
        """a function without model may have done anything to h"""
        if op(self.content(st, h)) not in ("#text", "#cut", "#unknown"):
            self.forget(I, fr, name, e)
        st.store[self.cell(h)] = unknown()
        if F(("P", h), "#rc") in st.store:
            st.store[F(("P", h), "#rc")] = unknown()

    def call(self, I, st, fr, e, fn, obj, args):
        if fn is not None and self.raises.match(I.P.sq(fn)):
            I.event(st, "raise", I.P.sq(fn))
        return super().call(I, st, fr, e, fn, obj, args)

    def known(self, I, fn, fr):
        return fn["id"] in self.within and not fn["name"].startswith(("SWIG", "Swig"))

    def seq(self, st, h):
        """an array that may also be a mapping"""

    def value(self, I, st, a):
        return ref(a)

    def api(self, I, st, fr, e, fn, name, obj, args):
        if fn["id"] in self.within and not name.startswith(("SWIG_", "Swig")):
            return None
        r = self.lib(I, st, fr, e, fn, name, obj, args)
        if r is None:
            self.foreign(I, st, fr, name, e, obj, args)
        return r

    def lib(self, I, st, fr, e, fn, name, obj, args):
        return None


class PythonBuilder(GlueBuilder):
    lang = "python"

    def rc(self, h):
        return F(("P", h), "#rc")

    def made(self, I, st, fr, e, fn, name, content):
        h = self.new(I, st, name, content, fn["ret"])
        I.LT[self.rc(h)] = "int"
        st.store[self.rc(h)] = I1
        I.event(st, "made", h, name, (e or {}).get("l"))
        return h

    def use(self, I, st, fr, e, h, what):
        """h is used by a function that needs an object"""
        if not self.is_handle(st, h):
            if h == I0:
                self.report(I, fr, e, "%s is given NULL" % what)
            return False
        if not st.nonnull(h):
            self.report(I, fr, e, "%s is given the result of %s without a test for NULL" % (what, h[1] if h[0] == "ap" else show(h)))
            st.assume(mk_eq(h, I0), False)
        if st.load(self.rc(h)) == I0 and F(("P", h), "#in") not in st.store:
            self.report(I, fr, e, "%s is given the result of %s after it was released" % (what, h[1] if h[0] == "ap" else show(h)))
        return True

    def release(self, I, st, fr, e, h, name):
        if not self.is_handle(st, h):
            if h == I0 and name == "Py_DECREF":
                self.report(I, fr, e, "Py_DECREF is given NULL")
            return
        if st.decide(mk_eq(h, I0)) is True:
            if name == "Py_DECREF":
                self.report(I, fr, e, "Py_DECREF is given NULL")
            return
        if name == "Py_DECREF" and not st.nonnull(h):
            self.report(I, fr, e, "Py_DECREF is given the result of %s without a test for NULL" % (h[1] if h[0] == "ap" else show(h)))
        n = st.load(self.rc(h))
        if n == I0:
            self.report(I, fr, e, "the reference from %s is released twice" % (h[1] if h[0] == "ap" else show(h)))
            return
        st.store[self.rc(h)] = add(n, I1, -1)

    def lib(self, I, st, fr, e, fn, name, obj, args):
        if name in ("PyList_New",):
            h = self.made(I, st, fr, e, fn, name, NIL)
            if args[0] != I0:
                st.store[F(("P", h), "#cap")] = args[0]
            return [(h, st)]
        if name in ("PyDict_New",):
            return [(self.made(I, st, fr, e, fn, name, MAP0), st)]
        if name in ("PyUnicode_FromStringAndSize", "PyUnicode_DecodeUTF8", "PyString_FromStringAndSize"):
            c = self.text(I, st, fr, e, args[0], args[1])
            if name == "PyUnicode_DecodeUTF8" and args[2] != I0 and args[2] != ("str", "strict"):
                c = ("ap", "#lossy", c)
            return [(self.made(I, st, fr, e, fn, name, c), st)]
        if name in ("PyUnicode_FromString", "PyString_FromString"):
            return [(self.made(I, st, fr, e, fn, name, self.text(I, st, fr, e, args[0])), st)]
        if name in ("PyBytes_FromStringAndSize", "PyByteArray_FromStringAndSize", "PyBytes_FromString", "PyTuple_New"):
            return [(self.made(I, st, fr, e, fn, name, ("ap", "#other", ("str", name))), st)]
        if name in ("PyDict_SetItem", "PyObject_SetItem"):
            d, k, v = args
            for a in (d, k, v):
                if not self.use(I, st, fr, e, a, name):
                    return None
            st.store[self.cell(d)] = put(self.content(st, d), ref(k), ref(v))
            st.store[F(("P", k), "#in")] = st.store[F(("P", v), "#in")] = I1
            return [(self.status(I, st, fr, e, name), st)]
        if name == "PyDict_SetItemString":
            d, k, v = args
            for a in (d, v):
                if not self.use(I, st, fr, e, a, name):
                    return None
            st.store[self.cell(d)] = put(self.content(st, d), self.text(I, st, fr, e, k), ref(v))
            st.store[F(("P", v), "#in")] = I1
            return [(self.status(I, st, fr, e, name), st)]
        if name == "PyList_Append":
            l, v = args
            for a in (l, v):
                if not self.use(I, st, fr, e, a, name):
                    return None
            if F(("P", l), "#cap") in st.store:
                self.forget(I, fr, name, e)
            self.push(I, st, l, ref(v))
            st.store[F(("P", v), "#in")] = I1
            return [(self.status(I, st, fr, e, name), st)]
        if name in ("PyList_Insert",):
            l, i, v = args
            for a in (l, v):
                if not self.use(I, st, fr, e, a, name):
                    return None
            if i == I0:
                st.store[self.cell(l)] = ("ap", "#unshift", self.content(st, l), ref(v))
            else:
                self.forget(I, fr, name, e)
                st.store[self.cell(l)] = unknown()
            st.store[F(("P", v), "#in")] = I1
            return [(self.status(I, st, fr, e, name), st)]
        if name in ("PyList_SetItem", "PyList_SET_ITEM"):
            l, i, v = args
            if not self.use(I, st, fr, e, l, name) or not self.is_handle(st, v):
                return None
            # takes the reference; NULL is an empty place
            if not st.nonnull(v):
                self.report(I, fr, e, "%s is given the result of %s without a test for NULL" % (name, v[1] if v[0] == "ap" else show(v)))
            n = self.length(I, st, l)
            if i == n or st.decide(mk_eq(i, n)) is True:
                self.push(I, st, l, ref(v))
            else:
                self.forget(I, fr, name, e)
                st.store[self.cell(l)] = unknown()
            st.store[F(("P", v), "#in")] = I1
            st.store[self.rc(v)] = add(st.load(self.rc(v)), I1, -1)
            return [(self.status(I, st, fr, e, name) if name == "PyList_SetItem" else None, st)]
        if name in ("Py_INCREF", "Py_XINCREF", "Py_IncRef", "Py_NewRef", "Py_XNewRef"):
            h = args[0]
            if not self.is_handle(st, h):
                return None
            if name in ("Py_INCREF", "Py_NewRef"):
                self.use(I, st, fr, e, h, name)
            st.store[self.rc(h)] = add(st.load(self.rc(h)), I1)
            return [(h if "New" in name else None, st)]
        if name in ("Py_DECREF", "Py_XDECREF", "Py_DecRef"):
            if self.is_handle(st, args[0]) or args[0] == I0:
                self.release(I, st, fr, e, args[0], name)
                return [(None, st)]
            return None
        if name in ("PyList_Size", "PyList_GET_SIZE", "PyObject_Length", "PyObject_Size"):
            if self.is_handle(st, args[0]) and F(("P", args[0]), "#n") in st.store:
                return [(self.length(I, st, args[0]), st)]
            return None
        return None

    def foreign(self, I, st, fr, name, e, obj, args):
        if name.startswith(("SWIG_", "Swig")) and name not in ("SWIG_Python_AppendOutput",):
            return
        super().foreign(I, st, fr, name, e, obj, args)


class RubyBuilder(GlueBuilder):
    lang = "ruby"

    def lib(self, I, st, fr, e, fn, name, obj, args):
        def make(c):
            return [(self.new(I, st, name, c, "unsigned long"), st)]
        if name in ("rb_ary_new", "rb_ary_new_capa", "rb_ary_tmp_new"):
            return make(NIL)
        if name in ("rb_hash_new", "rb_hash_new_capa", "rb_ident_hash_new"):
            return make(MAP0)
        if name in ("rb_enc_str_new", "rb_enc_str_new_static", "rb_str_new", "rb_utf8_str_new", "rb_utf8_str_new_static", "rb_external_str_new", "rb_str_new_static",
                    "rb_external_str_new_with_enc", "rb_enc_interned_str", "rb_interned_str", "rb_str_buf_append"):
            if name == "rb_str_buf_append":
                return None
            c = self.text(I, st, fr, e, args[0], args[1])
            if "static" in name and op(c) == "#text" and c[2][0] != "str":
                c = ("ap", "#dangling", c)
            return make(c)
        if name in ("rb_enc_str_new_cstr", "rb_str_new_cstr", "rb_utf8_str_new_cstr", "rb_external_str_new_cstr", "rb_str_new2", "rb_enc_interned_str_cstr", "rb_interned_str_cstr",
                    "rb_locale_str_new_cstr"):
            return make(self.text(I, st, fr, e, args[0]))
        if name == "rb_hash_aset":
            d, k, v = args
            if not all(self.is_handle(st, a) for a in args):
                return None
            st.store[self.cell(d)] = put(self.content(st, d), ref(k), ref(v))
            return [(v, st)]
        if name == "rb_ary_push":
            l, v = args
            if not all(self.is_handle(st, a) for a in args):
                return None
            self.push(I, st, l, ref(v))
            return [(l, st)]
        if name == "rb_ary_unshift":
            l, v = args
            if not all(self.is_handle(st, a) for a in args):
                return None
            st.store[self.cell(l)] = ("ap", "#unshift", self.content(st, l), ref(v))
            return [(l, st)]
        if name == "rb_ary_store":
            l, i, v = args
            if not self.is_handle(st, l) or not self.is_handle(st, v):
                return None
            n = self.length(I, st, l)
            if i == n or st.decide(mk_eq(i, n)) is True:
                self.push(I, st, l, ref(v))
            else:
                st.store[self.cell(l)] = ("ap", "#store", self.content(st, l), i, ref(v))
            return [(None, st)]
        if name in ("rb_str_freeze", "rb_obj_freeze", "rb_enc_associate", "rb_enc_associate_index", "rb_gc_register_address", "rb_obj_freeze_inline", "rb_gc_guarded_ptr"):
            return [(args[0] if fn["ret"] != "void" else None, st)]
        return None


class PhpBuilder(GlueBuilder):
    lang = "php"
    EMPTY = NIL
    nils = maps = (NIL,)

    def arr(self, st, z):
        l = pointer_of(z)
        if l is None:
            return None
        h = st.store.get(F(l, "value", "arr"))
        return h if h is not None and self.is_handle(st, h) else None

    def zval(self, st, z):
        """content of a zval"""
        l = pointer_of(z)
        hs = [st.store[F(l, "value", x)] for x in ("arr", "str") if l is not None and F(l, "value", x) in st.store]
        hs = [h for h in hs if self.is_handle(st, h)]
        return hs[0] if len(hs) == 1 else None

    def result(self, I, st, fr, e, p):
        z = None
        for i, q in enumerate(p.X.f["params"]):
            if q["name"] == "return_value":
                z = p.X.params[i]
        h = self.arr(p.st, z) if z is not None else None
        return ("value", h) if h is not None else ("other", None)

    def lib(self, I, st, fr, e, fn, name, obj, args):
        if name in ("_zend_new_array_0", "_zend_new_array"):
            return [(self.new(I, st, name, NIL, "struct _zend_array *"), st)]
        if name in ("zend_string_init", "zend_string_init_fast"):
            return [(self.new(I, st, name, self.text(I, st, fr, e, args[0], args[1]), "struct _zend_string *"), st)]
        if not name.startswith(("add_assoc_", "add_next_index_", "add_index_")):
            return None
        a = self.arr(st, args[0])
        if a is None:
            return None
        c = self.content(st, a)
        if name == "add_next_index_stringl":
            self.push(I, st, a, self.text(I, st, fr, e, args[1], args[2]))
        elif name == "add_next_index_string":
            self.push(I, st, a, self.text(I, st, fr, e, args[1]))
        elif name == "add_next_index_str":
            if not self.is_handle(st, args[1]):
                return None
            self.push(I, st, a, ref(args[1]))
        elif name == "add_next_index_zval":
            v = self.zval(st, args[1])
            if v is None:
                return None
            self.push(I, st, a, ref(v))
        elif name.startswith("add_assoc_"):
            ex = name.endswith("_ex")
            k = self.text(I, st, fr, e, args[1], args[2] if ex else None)
            kind = name[len("add_assoc_"):-3] if ex else name[len("add_assoc_"):]
            if not ex:
                args = args[:2] + [None] + args[2:]
            if kind == "stringl":
                v = self.text(I, st, fr, e, args[3], args[4])
            elif kind == "string":
                v = self.text(I, st, fr, e, args[3])
            elif kind == "str" and self.is_handle(st, args[3]):
                v = ref(args[3])
            elif kind == "zval" and self.zval(st, args[3]) is not None:
                v = ref(self.zval(st, args[3]))
            else:
                return None
            st.store[self.cell(a)] = put(c, k, v)
        else:
            return None
        return [(None if fn["ret"] == "void" else I0, st)]

    def foreign(self, I, st, fr, name, e, obj, args):
        for z in args:
            if z is None or (not is_lv(z) and z[0] != "addr"):
                if z is not None and self.is_handle(st, z):
                    self.poison(I, st, fr, name, e, z)
                continue
            a = self.arr(st, z)
            if a is not None:
                self.poison(I, st, fr, name, e, a)


class NodeBuilder(GlueBuilder):
    lang = "node"

    def handle(self, st, x):
        l = pointer_of(x)
        if l is None:
            return None
        h = st.store.get(F(l, "#h"))
        return h if h is not None and self.is_handle(st, h) else None

    def result(self, I, st, fr, e, p):
        l = p.payload[1] if is_lv(p.payload) else None
        h = p.st.store.get(F(l, "#h")) if l is not None else None
        if h is not None and self.is_handle(p.st, h):
            return "value", h
        return "other", None

    def obj(self, I, st, name, content):
        out = models.newobj(st)
        h = self.new(I, st, name, content, "napi_value")
        st.store[F(out, "#h")] = h
        return [(("LV", out), st)]

    def item(self, I, st, fr, e, a, t):
        """content of an argument of type t"""
        k = models.kind(t)
        if is_lv(a):
            if k in ("string", "view"):
                return ("ap", "#text", models.S(st, a[1]))
            h = self.handle(st, a)
            return ref(h) if h is not None else None
        if a is None:
            return None
        if self.is_handle(st, a):
            return ref(a)
        if "char" in t:
            return self.text(I, st, fr, e, a)
        return None

    def lib(self, I, st, fr, e, fn, name, obj, args):
        if not name.startswith("Napi::"):
            return None
        where, obj = obj, ("LV", obj) if obj is not None else None
        cls, last = name[6:].rsplit("::", 1) if "::" in name[6:] else ("", name[6:])
        pts = [p["t"] for p in fn["params"]]
        if (cls, last) in (("Array", "New"), ("Object", "New")):
            return self.obj(I, st, name, NIL if cls == "Array" else MAP0)
        if (cls, last) == ("String", "New"):
            if len(args) == 3:
                return self.obj(I, st, name, self.text(I, st, fr, e, args[1], I.load(args[2], st) if is_lv(args[2]) else args[2]))
            c = self.item(I, st, fr, e, args[1], pts[1])
            return self.obj(I, st, name, c) if c is not None else None
        if last.startswith("operator napi_value") or (cls, last) in (("Value", "operator napi_value"),):
            h = self.handle(st, obj)
            return [(h, st)] if h is not None else None
        if last == "Set" and cls in ("Object", "Array"):
            o = self.handle(st, obj)
            if o is None:
                return None
            v = self.item(I, st, fr, e, args[1], pts[1])
            if v is None:
                return None
            kt = strip_cv(noref(pts[0]))
            r = ("ap", "Napi::Set", ("n", fresh()))
            if INTS.get(kt):
                i = I.load(args[0], st) if is_lv(args[0]) else args[0]
                n = self.length(I, st, o)
                if i == n or st.decide(mk_eq(i, n)) is True:
                    self.push(I, st, o, v)
                else:
                    st.store[self.cell(o)] = ("ap", "#store", self.content(st, o), i, v)
                return [(r, st)]
            k = self.item(I, st, fr, e, args[0], pts[0])
            if k is None:
                return None
            st.store[self.cell(o)] = put(self.content(st, o), k, v)
            return [(r, st)]
        if (cls, last) == ("Array", "Length"):
            o = self.handle(st, obj)
            return [(self.length(I, st, o), st)] if o is not None else None
        if fn.get("kind") == "ctor" and len(args) == 1 and self.handle(st, args[0]) is not None:
            st.store[F(where, "#h")] = self.handle(st, args[0])
            return [(None, st)]
        if fn.get("kind") == "ctor" and len(args) == 2 and self.is_handle(st, args[1]):
            st.store[F(where, "#h")] = args[1]
            return [(None, st)]
        if last in ("As",):
            return [(("LV", where), st)] if self.handle(st, obj) is not None else None
        if last == "operator=" and args and self.handle(st, args[0]) is not None:
            st.store[F(where, "#h")] = self.handle(st, args[0])
            return [(("LV", where), st)]
        return None

    def foreign(self, I, st, fr, name, e, obj, args):
        for a in [("LV", obj) if obj is not None else None] + list(args):
            h = self.handle(st, a) if a is not None and (is_lv(a) or a[0] == "addr") else a if a is not None and self.is_handle(st, a) else None
            if h is not None and self.is_handle(st, h):
                self.poison(I, st, fr, name, e, h)


BUILDERS = {"python": PythonBuilder, "ruby": RubyBuilder, "php": PhpBuilder, "node": NodeBuilder}


def direct_extract(P, f):
    for n in walk(f["body"]):
        if n.get("k") == "call" and (n.get("qn") or "").split("<")[0] in ("Rule::extract", "hext::Rule::extract"):
            return n
    return None


MUTATORS = ("erase", "clear", "pop_back", "pop_front", "resize", "insert", "emplace", "emplace_back", "push_back", "extract", "merge", "assign", "swap")
REORDER = ("std::reverse", "std::sort", "std::stable_sort", "std::unique", "std::remove", "std::remove_if", "std::rotate", "std::shuffle", "std::random_shuffle", "std::iter_swap", "std::partition", "std::stable_partition",
           "std::swap_ranges")


def changes_result(P, f):
    """calls that change a list of groups or a group"""
    for n in walk(f["body"]):
        if n.get("k") != "call":
            continue
        q = short(n.get("qn") or "")
        if q.startswith(("std::vector::", "std::multimap::")) and q.rsplit("::", 1)[1] in MUTATORS:
            g = P.fn.get(n.get("fn"))
            if g is not None and "std::multimap" in (g.get("record") or g.get("qn") or ""):
                yield n, q
        elif q in REORDER:
            g = P.fn.get(n.get("fn"))
            if g is not None and any("multimap" in p["t"] for p in g["params"]):
                yield n, q


def program25():
    return Bindings(lib=False)


def after(trace, i):
    return trace[i + 1:]


def c25(R, B=None):
    R.rule("complete", "every path on which a result is converted returns a list to which every group was appended once, in order; every round over the entries of a group adds the name and value of the entry, repeated values as a list in order", minimum=4)
    R.rule("unchanged", "the result is not changed, reordered or shortened before it is converted", minimum=4)
    R.rule("references", "Python: every reference that is acquired is released exactly once, or returned, or given away, at the end of every round and on every path", minimum=2)
    R.rule("failures", "Python: no function is given an object that may be NULL or was released, a failing call ends in an exception, and the result is not NULL without one", minimum=2)
    B = B or Bindings(lib=False)
    for n in B.notes:
        R.skip("binding", n)
    wrapped(R, B)
    for lang, P in B.programs.items():
        fs = [P.fn[g] for g in sorted(B.glue[lang], key=lambda k: P.fn[k]["loc"]) if direct_extract(P, P.fn[g])]
        if not fs:
            R.skip(lang, "no function of the glue that calls Rule::extract found")
        for f in fs:
            R.fn(f)
            try:
                glue(R, B, lang, P, f)
            except AnalysisBroken as e:
                R.skip("%s: %s" % (lang, f["name"]), str(e))
    return R.finish("other", "abstract interpretation of the conversion in the glue that SWIG generates from the current interface files, and of the Node.js sources: contents of the other language's containers as terms, references as counters, every loop decided for an arbitrary round",
                    ["C APIs of Python, Ruby, PHP and node-addon-api as documented (which functions append, return new references, take references)", TRUST[1]])


def wrapped(R, B):
    """the wrapper class hands on the result of hext::Rule::extract as it is"""
    seen = set()
    for lang, P in B.programs.items():
        for f in P.fn.values():
            if f["id"] in B.glue[lang] or not f.get("has_body") or "/bindings/" not in f["loc"] or f["loc"] in seen or P.sq(f) == "hext::Rule::extract" or not direct(P, f, "hext::Rule::extract"):
                continue
            seen.add(f["loc"])
            R.fn(f)
            name = "%s %s" % (rel(f["loc"]), short(f["qn"]))
            muts = changes_result(P, f)
            for n, q in muts:
                R.violation("unchanged", "%s:%s" % (rel(f["loc"]).split(":")[0], n.get("l")), "%s: %s changes the result" % (name, q), key="wrapper: %s" % q)
            X = spec.Exec(P, f, client=Wrapped(P))
            for p in X.returns:
                calls = p.calls("hext::Rule::extract")
                v = p.payload
                if not calls and any(p.null(e[5]) for e in p.trace if e[0] == "call" and e[5] is not None and e[1].rsplit("::", 1)[-1] == "root"):
                    R.skip(name, "a path without document")
                elif not calls:
                    R.violation("unchanged", name, "%s: a path returns without calling hext::Rule::extract" % name, key="wrapper: no call")
                elif same_result(p.st, v, calls[-1][5]):
                    R.ok("unchanged", name)
                elif not muts:
                    R.skip(name, "whether the result of hext::Rule::extract is returned as it is: %s" % (show(v)[:100] if v is not None else "?"))


class Wrapped(spec.SpecClient):
    def inline(self, I, fn, fr):
        return not I.P.sq(fn).startswith("hext::") and super().inline(I, fn, fr)


def direct(P, f, name):
    return any(n.get("k") == "call" and n.get("fn") in P.fn and P.sq(P.fn[n["fn"]]) == name for n in walk(f["body"]))


def same_result(st, v, res):
    if v is None or v[0] != "LV":
        return v is not None and v == res
    return st.origin(v[1])[:2] == ("H", res) if res is not None and res[0] != "LV" else res is not None and st.origin(v[1]) == st.origin(res[1])


def glue(R, B, lang, P, f):
    c = BUILDERS[lang](P, B.glue[lang], RAISE[lang])
    X = spec.Exec(P, f, client=c)
    D = Decider(X)
    name = "%s: %s" % (lang, f["qn"])

    def place(line, fn=None):
        return B.where(lang, fn or f, str(line or f["loc"].rsplit(":", 2)[1]).split(":")[0])
    unsure = "; not modelled: " + ", ".join(sorted(c.unmodelled)) if c.unmodelled else ""
    muts = [m for g in sorted({f["id"]} | {x for x in c.seen if x in B.glue[lang]}) for m in changes_result(P, P.fn[g])]
    for n, q in muts:
        R.violation("unchanged", place(n.get("l")), "%s: %s changes the result before it is converted" % (name, q), key="%s: %s" % (lang, q))
    if not muts:
        R.ok("unchanged", name)
    done = 0
    said = set()
    for p in X.returns:
        at = [i for i, e in enumerate(p.trace) if e[0] == "call" and e[1].split("<")[0] in ("Rule::extract", "hext::Rule::extract")]
        if not at:
            continue
        rest = after(p.trace, at[-1])
        raised = any(e[0] == "raise" for e in rest)
        kind, h = c.result(X.I, p.st, None, None, p)
        if lang == "python":
            python_path(R, B, X, c, p, rest, raised, kind, h, name, place, unsure, said)
        if raised:
            continue
        if kind == "null":
            continue
        if kind != "value":
            R.skip(name, "what is returned is not a container: %s" % (show(h)[:80] if h is not None else "?"))
            continue
        try:
            vec = D.groups(c.content(p.st, h), p.st)
            done += 1
            R.ok("complete", "%s: %d rounds" % (name, D.steps))
        except Fail as e:
            if not e.sure or unsure and e.msg.endswith("stays empty"):
                R.skip(name, "%s (%s)%s" % (e.msg, place(e.line), unsure))
            elif e.msg not in said:
                said.add(e.msg)
                R.violation("complete", place(e.line), "%s: %s" % (name, e.msg), key="%s: %s" % (lang, e.msg[:60]))
    if lang == "python":
        for msg, (fn, line) in c.bad.items():
            R.violation("failures", place(line, fn), "%s: %s" % (name, msg), key=msg)
        if not c.bad:
            R.ok("failures", name)
        for L in X.loops.values():
            if L.trial:
                continue
            bad = False
            for b in L.backs:
                bad = python_state(R, c, b, trace_list(b.trace, L.start), None, L.entry, "at the end of a round", name, place, L.line, unsure, said) or bad
            if L.backs and not bad:
                R.ok("references", "%s: loop %s" % (name, str(L.line).split(":")[0]))


def origin(h):
    return h[1] if h[0] == "ap" else show(h)


def python_state(R, c, st, trace, returned, before, when, name, place, line, unsure, said):
    """references that are left in st; results that were not looked at"""
    bad = False
    for k, v in list(st.store.items()):
        if k[0] != "F" or k[2] != "#rc" or k[1][0] != "P":
            continue
        h = k[1][1]
        old = before.store.get(k) if before is not None else None
        if st.decide(mk_eq(h, I0)) is True:
            continue
        want = old if old is not None else I1 if h == returned else I0
        if v == want:
            continue
        d = lin_comb(to_lin(v), 1, to_lin(want), -1)
        msg = None
        if not d[1] and d[0] > 0:
            msg = "a reference from %s is not released %s" % (origin(h), when)
        elif not d[1] and d[0] < 0:
            msg = "a reference from %s that is still needed is released %s" % (origin(h), when)
        elif old is not None and old[0] != "phi" and v[0] == "phi":
            continue
        else:
            R.skip(name, "references of %s: %s" % (origin(h), show(v)[:60]))
            continue
        bad = True
        if msg not in said:
            said.add(msg)
            made = [e for e in trace if e[0] == "made" and e[1] == h]
            R.violation("references", place(made[0][3] if made else line), "%s: %s" % (name, msg), key=msg)
    for e in trace:
        if e[0] == "need0" and returned is not None or e[0] == "need0" and before is not None:
            if st.decide(mk_eq(e[1], I0)) is not True:
                msg = "the result of %s is not looked at" % e[2]
                if msg not in said:
                    said.add(msg)
                    R.violation("failures", place(e[3]), "%s: %s" % (name, msg), key=msg)
    return bad


def python_path(R, B, X, c, p, rest, raised, kind, h, name, place, unsure, said):
    failed = any(e[0] == "need0" and p.st.decide(mk_eq(e[1], I0)) is False or e[0] == "made" and p.null(e[1]) for e in rest)
    if kind == "other" and h is not None and not raised:
        return
    if kind == "value" and not p.nonnull(h):
        kind = "null" if p.null(h) else "maybe"
    if kind == "null" and not raised and not failed:
        msg = "NULL is returned without an exception"
        if msg not in said:
            said.add(msg)
            if unsure:
                R.skip(name, msg + unsure)
            else:
                R.violation("failures", place(None), "%s: %s" % (name, msg), key=msg)
    if kind == "maybe":
        msg = "the result of %s may be NULL" % origin(h)
    if kind in ("value", "maybe") and (raised or failed):
        msg = "an object is returned although an exception was raised"
        if msg not in said:
            said.add(msg)
            R.violation("failures", place(None), "%s: %s" % (name, msg), key=msg)
    python_state(R, c, p.st, rest, h if kind in ("value", "maybe") else None, None, "on a path that returns", name, place, None, unsure, said)
