"""Terms, locations and the abstract state of the path-sensitive interpreter.

Terms (hashable tuples)
  ('i', n)              integer, boolean, enumerator, null pointer (0)
  ('str', text)         string literal
  ('addr', loc)         address of a location (never null)
  ('fn', id)            function
  ('rd', loc)           content of a location at a fixed moment (see State.load)
  ('ap', name, ...)     uninterpreted value
  ('phi', n, hint)      value of a location at a loop head
  ('lin', c, ((t,k)..)) linear combination
  ('eq', a, b) ('lt', a, b) ('not', t)   booleans
  ('op', o, a, b)       other arithmetic

Locations
  ('V', id, frame, name) variable      ('T', n) temporary / heap object
  ('P', term) pointee                  ('H', n, hint) origin of unknown content
  ('F', loc, field)                    ('I', loc, term) element
  ('G', id) global
"""
import itertools

I0, I1 = ("i", 0), ("i", 1)
MAXU64 = 2 ** 64 - 1
SIZEMAX = 2 ** 63 - 1
TEXTMAX = 2 ** 31 - 1  # no text is longer than 2 GiB (assumption)

TYPES = {}  # term -> canonical type of the value


def strip_cv(t):
    t = t.strip()
    while True:
        if t.startswith("const "):
            t = t[6:]
        elif t.startswith("volatile "):
            t = t[9:]
        elif t.endswith("*const"):
            t = t[:-5]
        elif t.endswith(" const"):
            t = t[:-6]
        elif t.endswith("*__restrict") or t.endswith("*restrict"):
            t = t[: t.rindex("*") + 1]
        else:
            return t.strip()


def noref(t):
    t = t.strip()
    while t.endswith("&"):
        t = t[:-1].strip()
    return t


def is_ref(t):
    return t.strip().endswith("&")


INTS = {
    "bool": (0, 1), "char": (-128, 127), "signed char": (-128, 127), "unsigned char": (0, 255),
    "short": (-2 ** 15, 2 ** 15 - 1), "unsigned short": (0, 2 ** 16 - 1), "int": (-2 ** 31, 2 ** 31 - 1),
    "unsigned int": (0, 2 ** 32 - 1), "long": (-2 ** 63, 2 ** 63 - 1), "unsigned long": (0, MAXU64),
    "long long": (-2 ** 63, 2 ** 63 - 1), "unsigned long long": (0, MAXU64), "wchar_t": (-2 ** 31, 2 ** 31 - 1),
    "char32_t": (0, 2 ** 32 - 1), "char16_t": (0, 2 ** 16 - 1), "__int128": (-2 ** 127, 2 ** 127 - 1),
    "unsigned __int128": (0, 2 ** 128 - 1),
}


def is_ptr(t):
    t = strip_cv(t)
    return t.endswith("*") or t == "std::nullptr_t" or t.endswith("*)") and False or ("(*)" in t) or t == "nullptr_t"


def int_range(t):
    return INTS.get(strip_cv(t))


def is_unsigned(t):
    r = int_range(t)
    return r is not None and r[0] == 0


def targs(t):
    """top-level template arguments of a type"""
    t = strip_cv(noref(t))
    i = t.find("<")
    if i < 0:
        return []
    depth, cur, out = 0, "", []
    for ch in t[i:]:
        if ch in "<([":
            depth += 1
            if depth == 1:
                continue
        elif ch in ">)]":
            depth -= 1
            if depth == 0:
                out.append(cur.strip())
                break
        if ch == "," and depth == 1:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out


# ---------------------------------------------------------------- locations
def root(loc):
    while loc[0] in ("F", "I"):
        loc = loc[1]
    return loc


def is_under(loc, anc):
    """loc equals anc or lies inside it"""
    while True:
        if loc == anc:
            return True
        if loc[0] in ("F", "I"):
            loc = loc[1]
        else:
            return False


def rebase(loc, old, new):
    if loc == old:
        return new
    return (loc[0], rebase(loc[1], old, new)) + loc[2:]


def F(loc, *fs):
    for f in fs:
        loc = ("F", loc, f)
    return loc


# ---------------------------------------------------------------- terms
def is_const(t):
    return t[0] == "i"


def to_lin(t):
    if t[0] == "i":
        return t[1], ()
    if t[0] == "lin":
        return t[1], t[2]
    return 0, ((t, 1),)


_keys = {}


def _key(t):
    k = _keys.get(t)
    if k is None:
        k = _keys[t] = len(_keys)
    return k


def from_lin(c, ts):
    if not ts:
        return ("i", c)
    if c == 0 and len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0]
    return ("lin", c, ts)


def lin_comb(a, ka, b, kb):
    """ka*a + kb*b of (c, ts) pairs"""
    d = {}
    for t, k in a[1]:
        d[t] = d.get(t, 0) + ka * k
    for t, k in b[1]:
        d[t] = d.get(t, 0) + kb * k
    ts = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda x: _key(x[0])))
    return ka * a[0] + kb * b[0], ts


def add(a, b, k=1):
    return from_lin(*lin_comb(to_lin(a), 1, to_lin(b), k))


def scale(a, k):
    return from_lin(*lin_comb(to_lin(a), k, (0, ()), 0))


def mk_not(t):
    if t[0] == "i":
        return I0 if t[1] else I1
    if t[0] == "not":
        return t[1]
    return ("not", t)


def mk_eq(a, b):
    if a == b:
        return I1
    d = lin_comb(to_lin(a), 1, to_lin(b), -1)
    if not d[1]:
        return I1 if d[0] == 0 else I0
    if a[0] in ("addr", "str", "fn") and b[0] in ("addr", "str", "fn", "i"):
        return I0 if a[0] != "str" or b[0] != "str" else ("eq", a, b)
    if b[0] in ("addr", "str", "fn") and a[0] == "i":
        return I0
    if is_const(a) or (not is_const(b) and _key(b) < _key(a)):
        a, b = b, a
    for x, y in ((a, b), (b, a)):
        # what the function was called with cannot be the address of one of its own variables
        if x[0] == "addr" and y[0] == "ap" and (y[1] == "param" or y[1] == "this") and own_storage(x[1]):
            return I0
    return ("eq", a, b)


def own_storage(loc):
    while loc[0] in ("F", "I"):
        loc = loc[1]
    return loc[0] in ("V", "T")


def mk_lt(a, b):
    if a == b:
        return I0
    d = lin_comb(to_lin(a), 1, to_lin(b), -1)
    if not d[1]:
        return I1 if d[0] < 0 else I0
    return ("lt", a, b)


def subterms(t):
    """all tuples inside a term (terms and locations)"""
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(y for y in x if isinstance(y, tuple))


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


def subst(t, m):
    """replace subterms (exact matches) by the mapping m"""
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    return tuple(subst(x, m) for x in t)


def show(t, depth=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if depth > 12:
        return "…"
    k = t[0]
    s = lambda x: show(x, depth + 1)
    if k == "i":
        return str(t[1])
    if k == "str":
        return repr(t[1])
    if k == "addr":
        return "&" + s(t[1])
    if k == "fn":
        return "fn"
    if k == "rd":
        return s(t[1])
    if k == "ap":
        return "%s(%s)" % (t[1], ", ".join(s(x) for x in t[2:] if isinstance(x, tuple)))
    if k == "phi":
        return "%s@loop" % (t[2],)
    if k == "lin":
        out = []
        for x, c in t[2]:
            out.append(("-" if c < 0 else "+" if out else "") + (str(abs(c)) + "*" if abs(c) != 1 else "") + s(x))
        if t[1]:
            out.append("%+d" % t[1])
        return "".join(out)
    if k == "eq":
        return "%s == %s" % (s(t[1]), s(t[2]))
    if k == "lt":
        return "%s < %s" % (s(t[1]), s(t[2]))
    if k == "not":
        return "!(%s)" % s(t[1])
    if k == "op":
        return "(%s)" % (" %s " % t[1]).join(s(x) for x in t[2:])
    if k == "V":
        return str(t[3])
    if k == "T":
        return "tmp%d" % t[1]
    if k == "H":
        return "%s" % (t[2],) if len(t) > 2 and t[2] else "?%d" % t[1]
    if k == "P":
        x = t[1]
        return "*" + s(x)
    if k == "F":
        b = t[1]
        if b[0] == "P":
            return "%s->%s" % (s(b[1]), t[2])
        return "%s.%s" % (s(b), t[2])
    if k == "I":
        return "%s[%s]" % (s(t[1]), s(t[2]))
    if k == "G":
        return str(t[1]).split(".")[0]
    return "(" + " ".join(s(x) for x in t) + ")"


class Trace:
    """persistent list of events"""
    __slots__ = ("prev", "ev", "n")

    def __init__(self, prev, ev):
        self.prev, self.ev, self.n = prev, ev, (prev.n + 1 if prev else 1)


def trace_list(t, upto=None):
    out = []
    while t is not None and t is not upto:
        out.append(t.ev)
        t = t.prev
    out.reverse()
    return out


_fresh = itertools.count(1)


def fresh():
    return next(_fresh)


class State:
    __slots__ = ("store", "alias", "refs", "dom", "rels", "eqs", "nes", "imps", "trace", "dead")

    def __init__(self):
        self.store, self.alias, self.refs = {}, {}, {}
        self.dom, self.rels, self.eqs, self.nes = {}, frozenset(), {}, frozenset()
        self.imps = frozenset()   # (t, x, lin): t == x or lin <= 0
        self.trace = None
        self.dead = False

    def copy(self):
        s = State.__new__(State)
        s.store, s.alias, s.refs = dict(self.store), dict(self.alias), dict(self.refs)
        s.dom, s.rels, s.eqs, s.nes = dict(self.dom), self.rels, dict(self.eqs), self.nes
        s.imps = self.imps
        s.trace, s.dead = self.trace, self.dead
        return s

    # ------------------------------------------------------------ memory
    def origin(self, loc):
        """where the unmodified content of loc comes from"""
        path = []
        l = loc
        while True:
            a = self.alias.get(l)
            if a is not None:
                l = a
                break
            if l[0] == "I":
                a = self.alias.get(("I", l[1], "*"))
                if a is not None:
                    l = ("I", a, l[2])
                    break
            if l[0] in ("F", "I"):
                path.append(l)
                l = l[1]
            else:
                break
        for p in reversed(path):
            l = (p[0], l) + p[2:]
        return l

    def load(self, loc, t=None):
        v = self.store.get(loc)
        if v is not None:
            return v
        v = ("rd", self.origin(loc))
        if t is not None and v not in TYPES:
            TYPES[v] = strip_cv(noref(t))
        return v

    def write(self, loc, term):
        """scalar store; weakly invalidates elements and pointees that may alias"""
        self._clash(loc)
        self.store[loc] = term

    def _clash(self, loc):
        # writing an element makes the recorded sequence value stale
        y = loc
        while y[0] in ("F", "I"):
            if y[0] == "I":
                q = ("F", y[1], "$q")
                if q in self.store:
                    del self.store[q]
                    self.alias[q] = ("H", fresh(), None)
                elif q not in self.alias:
                    self.alias[q] = ("H", fresh(), None)
            y = y[1]
        # element written through a symbolic index or pointer: other elements of the same
        # container (other pointees with the same last field) may be the same one
        x = loc
        inner = None
        while x[0] in ("F", "I"):
            if x[0] == "I":
                inner = x
            x = x[1]
        if inner is not None:
            base = inner[1]
            kill = [k for k in self.store if k != loc and is_under(k, base) and self._other_elem(k, base, inner[2])]
            for k in kill:
                del self.store[k]
                self.alias[k] = ("H", fresh(), None)
        if x[0] == "P":
            suffix = _suffix(loc)
            for k in [k for k in self.store if k != loc]:
                r = root(k)
                if r != x and r[0] in ("P",) and _suffix(k) == suffix:
                    if self.provably_distinct(r[1], x[1]):
                        continue
                    del self.store[k]
                    self.alias[k] = ("H", fresh(), None)

    def _other_elem(self, k, base, idx):
        while k[1] != base:
            k = k[1]
            if k[0] not in ("F", "I"):
                return False
        if k[0] != "I":
            return False
        if k[2] == idx:
            return False
        d = lin_comb(to_lin(k[2]), 1, to_lin(idx), -1)
        if not d[1]:
            return False  # different constants
        return True

    def provably_distinct(self, a, b):
        q = mk_eq(a, b)
        return q == I0 or a[0] == "rd" and a[1][0] == "T" or q[0] == "eq" and self.decide(q) is False

    def clear(self, loc):
        for d in (self.store, self.alias):
            for k in [k for k in d if is_under(k, loc)]:
                del d[k]

    def havoc(self, loc, hint=None):
        self.clear(loc)
        self.alias[loc] = ("H", fresh(), hint)

    def copy_obj(self, dst, src):
        if dst == src:
            return
        o = self.origin(src)
        st = [(k, v) for k, v in self.store.items() if is_under(k, src)]
        al = [(k, v) for k, v in self.alias.items() if is_under(k, src) and k != src]
        self.clear(dst)
        self.alias[dst] = o
        for k, v in al:
            self.alias[rebase(k, src, dst)] = v
        for k, v in st:
            self.store[rebase(k, src, dst)] = v

    # ------------------------------------------------------------ facts
    def cls(self, t):
        return self.eqs.get(t) or (t,)

    def merge(self, a, b):
        c = frozenset(self.cls(a)) | frozenset(self.cls(b))
        for x in c:
            self.eqs[x] = c

    def bounds0(self, t):
        """(lo, hi, excluded, allowed|None) of one term from its form, type and facts"""
        k = t[0]
        if k == "i":
            return t[1], t[1], frozenset(), None
        if k in ("addr", "str", "fn"):
            return 1, 2 ** 47 - 1, frozenset((0,)), None
        if k in ("eq", "lt", "not"):
            lo, hi = 0, 1
        else:
            lo, hi = None, None
            ty = TYPES.get(t)
            if ty is not None:
                r = INTS.get(ty)
                if r is not None:
                    lo, hi = r
                elif is_ptr(ty):
                    lo, hi = 0, 2 ** 47 - 1
            if k == "ap" and t[1] == "size":
                lo, hi = 0, TEXTMAX
            elif k == "rd" and t[1][0] == "F" and t[1][2] == "$n":
                lo, hi = 0, SIZEMAX
            elif k == "rd" and t[1][0] == "F" and t[1][2] == "length" and t[1][1][0] == "F" and t[1][1][2] in ("children", "attributes"):
                lo, hi = 0, 2 ** 31 - 1
            elif k == "phi" and t[2].endswith(".$n"):
                lo, hi = 0, SIZEMAX
        d = self.dom.get(t)
        if d is None:
            return lo, hi, frozenset(), None
        l2, h2, ne, al = d
        if l2 is not None:
            lo = l2 if lo is None else max(lo, l2)
        if h2 is not None:
            hi = h2 if hi is None else min(hi, h2)
        return lo, hi, ne, al

    def bounds(self, t):
        if t[0] == "lin":
            lo = hi = t[1]
            for x, c in t[2]:
                l, h, _, _ = self.bounds(x)
                if c < 0:
                    l, h = h, l
                lo = None if lo is None or l is None else lo + c * l
                hi = None if hi is None or h is None else hi + c * h
            ne = frozenset()
            al = None
            d = self.dom.get(t)
            if d:
                if d[0] is not None:
                    lo = d[0] if lo is None else max(lo, d[0])
                if d[1] is not None:
                    hi = d[1] if hi is None else min(hi, d[1])
                ne, al = d[2], d[3]
            return lo, hi, ne, al
        lo, hi, ne, al = self.bounds0(t)
        for x in self.eqs.get(t, ()):
            if x == t:
                continue
            l2, h2, n2, a2 = self.bounds0(x)
            if l2 is not None:
                lo = l2 if lo is None else max(lo, l2)
            if h2 is not None:
                hi = h2 if hi is None else min(hi, h2)
            ne |= n2
            if a2 is not None:
                al = a2 if al is None else al & a2
        if al is not None:
            al = frozenset(v for v in al if v not in ne and (lo is None or v >= lo) and (hi is None or v <= hi))
            if al:
                lo, hi = min(al), max(al)
        else:
            while lo is not None and lo in ne and (hi is None or lo <= hi):
                lo += 1
            while hi is not None and hi in ne and (lo is None or hi >= lo):
                hi -= 1
        return lo, hi, ne, al

    def values(self, t):
        """finite set of possible values or None"""
        lo, hi, ne, al = self.bounds(t)
        if al is not None:
            return al
        if lo is not None and hi is not None and hi - lo < 1024:
            return frozenset(v for v in range(lo, hi + 1) if v not in ne)
        return None

    def _setdom(self, t, lo=None, hi=None, ne=(), al=None):
        if al is not None and t[0] == "rd" and len(al) == 1 and 0 in al and known_nonnull(t[1]):
            return False
        l0, h0, n0, a0 = self.dom.get(t, (None, None, frozenset(), None))
        if lo is not None:
            l0 = lo if l0 is None else max(l0, lo)
        if hi is not None:
            h0 = hi if h0 is None else min(h0, hi)
        if ne:
            n0 = n0 | frozenset(ne)
        if al is not None:
            a0 = frozenset(al) if a0 is None else a0 & frozenset(al)
        self.dom[t] = (l0, h0, n0, a0)
        lo, hi, ne, al = self.bounds(t)
        if lo is not None and hi is not None and lo > hi:
            return False
        if al is not None and not al:
            return False
        if lo is not None and hi is not None and hi - lo < 64 and all(v in ne for v in range(lo, hi + 1)):
            return False
        for i in self.imps:
            if i[0] == t and (i[1] in ne or lo is not None and i[1] < lo or hi is not None and i[1] > hi or al is not None and i[1] not in al):
                self.imps = self.imps - {i}
                if not self.add_rel(i[2]):
                    return False
        return True

    def set_allowed(self, t, al):
        return self._setdom(t, al=al)

    def nonnull(self, t):
        if t[0] in ("addr", "str", "fn"):
            return True
        lo, hi, ne, al = self.bounds(t)
        if lo is not None and lo > 0 or hi is not None and hi < 0 or 0 in ne:
            return True
        if al is not None and 0 not in al:
            return True
        if t[0] == "rd" and known_nonnull(t[1]):
            return True
        if t[0] == "lin" and is_ptr(TYPES.get(t, "")) and len(t[2]) >= 1:
            # pointer plus offset: stays inside (one past) the object
            return any(c == 1 and is_ptr(TYPES.get(x, "")) and self.nonnull(x) for x, c in t[2])
        return False

    # linear reasoning: rels holds (c, ts) meaning c + sum <= 0
    def entails(self, lin, depth=5):
        """lin <= 0 follows from intervals and a short sum of known relations"""
        if self._interval(lin):
            return True
        if not self.rels or not lin[1]:
            return False
        index = {}
        for r in self.rels:
            for t, k in r[1]:
                index.setdefault((t, k > 0), []).append((r, k))
        seen = {lin}
        level = [lin]
        budget = 250
        for _ in range(depth):
            nxt = []
            for cur in level:
                for t, k in cur[1]:
                    for r, rk in index.get((t, k > 0), ()):
                        if k % rk:
                            continue
                        rest = lin_comb(cur, 1, r, -abs(k // rk))
                        if len(rest[1]) > 4 or rest in seen:
                            continue
                        seen.add(rest)
                        budget -= 1
                        if self._interval(rest):
                            return True
                        if budget <= 0:
                            return False
                        nxt.append(rest)
            level = nxt
            if not level:
                return False
        return False

    def _interval(self, lin):
        hi = lin[0]
        for t, k in lin[1]:
            l, h, _, _ = self.bounds(t)
            b = h if k > 0 else l
            if b is None:
                return False
            hi += k * b
        return hi <= 0

    def le(self, a, b):
        """a <= b provable"""
        return self.entails(lin_comb(to_lin(a), 1, to_lin(b), -1))

    def lt(self, a, b):
        d = lin_comb(to_lin(a), 1, to_lin(b), -1)
        return self.entails((d[0] + 1, d[1]))

    def add_rel(self, lin):
        c, ts = lin
        if not ts:
            return c <= 0
        # infeasible if the negation (lin >= 1) is entailed:  1 - lin <= 0
        neg = lin_comb((1, ()), 1, lin, -1)
        if self.entails(neg, 3):
            return False
        if len(ts) == 1 and abs(ts[0][1]) == 1:
            t, k = ts[0]
            if k == 1:
                if not self._setdom(t, hi=-c):
                    return False
            else:
                if not self._setdom(t, lo=c):
                    return False
        else:
            for n in self.nes:
                d = lin_comb(to_lin(n[0]), 1, to_lin(n[1]), -1)
                if d == lin or lin_comb(d, -1, (0, ()), 0) == lin:
                    self.rels = self.rels | {(c + 1, ts)}
                    break
            self.rels = self.rels | {lin}
        return True

    def assume(self, t, truth):
        """adds the fact; False if it contradicts what is known"""
        k = t[0]
        if k == "i":
            return (t[1] != 0) == truth
        if k in ("addr", "str", "fn"):
            return truth
        if k == "not":
            return self.assume(t[1], not truth)
        if k == "lt":
            d = lin_comb(to_lin(t[1]), 1, to_lin(t[2]), -1)
            if truth:
                return self.add_rel((d[0] + 1, d[1]))
            return self.add_rel(lin_comb(d, -1, (0, ()), 0))
        if k == "eq":
            a, b = t[1], t[2]
            # boolean compared with a constant
            if is_const(b) and a[0] in ("eq", "lt", "not"):
                if b[1] == 0:
                    return self.assume(a, not truth)
                if b[1] == 1:
                    return self.assume(a, truth)
            d = lin_comb(to_lin(a), 1, to_lin(b), -1)
            if not d[1]:
                return (d[0] == 0) == truth
            if len(d[1]) == 1 and abs(d[1][0][1]) == 1:
                x, c = d[1][0]
                v = -d[0] * c
                if truth:
                    if self.rels and (self.entails((d[0] + 1, d[1]), 3) or self.entails(lin_comb((1, ()), 1, d, -1), 3)):
                        return False  # it is known to be smaller or larger
                    return self._setdom(x, al=(v,))
                vs = self.values(x)
                if vs == frozenset((v,)):
                    return False
                if v == 0:
                    return self.assume(x, True)
                return self._setdom(x, ne=(v,))
            if truth:
                if (a, b) in self.nes or (b, a) in self.nes:
                    return False
                if not self.add_rel(d) or not self.add_rel(lin_comb(d, -1, (0, ()), 0)):
                    return False
                if a[0] != "lin" and b[0] != "lin":
                    self.merge(a, b)
                    lo, hi, ne, al = self.bounds(a)
                    if lo is not None and hi is not None and lo > hi or al is not None and not al:
                        return False
                return True
            if b in self.cls(a):
                return False
            va, vb = self.values(a), self.values(b)
            if va is not None and va == vb and len(va) == 1:
                return False
            if self.entails(d) and self.entails(lin_comb(d, -1, (0, ()), 0)):
                return False
            self.nes = self.nes | {(a, b)}
            if self.entails(d):
                return self.add_rel((d[0] + 1, d[1]))
            n = lin_comb(d, -1, (0, ()), 0)
            if self.entails(n):
                return self.add_rel((n[0] + 1, n[1]))
            return True
        if truth:
            if not self._setdom(t, ne=(0,)):
                return False
            if t[0] == "rd" and t[1][0] == "F" and t[1][2] == "parent":
                return self._tree_facts(t[1][1], t)
            return True
        return self._setdom(t, al=(0,))

    def _tree_facts(self, node, parent):
        """a node that has a parent is one of its parent's children"""
        idx = ("rd", F(node, "index_within_parent"))
        TYPES.setdefault(idx, "unsigned long")
        if not self._setdom(idx, lo=0, hi=2 ** 31 - 2):
            return False
        for kind in ("element", "document"):
            n = ("rd", self.origin(F(("P", parent), "v", kind, "children", "length")))
            TYPES.setdefault(n, "unsigned int")
            if not self.add_rel(lin_comb((1, ((idx, 1),)), 1, to_lin(n), -1)):
                return False
        return True

    def decide(self, t):
        """True / False / None"""
        if t[0] == "i":
            return t[1] != 0
        s = self.copy()
        if not s.assume(t, True):
            return False
        s = self.copy()
        if not s.assume(t, False):
            return True
        return None


def known_nonnull(loc):
    """facts about Gumbo's parse tree: list entries and text are never null"""
    if loc[0] == "I" and loc[1][0] == "P":
        d = loc[1][1]
        if d[0] == "rd" and d[1][0] == "F" and d[1][2] == "data":
            return True
    if loc[0] == "F" and loc[2] == "text" and loc[1][0] == "F" and loc[1][2] == "text":
        return True
    return False


def _suffix(loc):
    out = []
    while loc[0] in ("F", "I"):
        if loc[0] == "F":
            out.append(loc[2])
        loc = loc[1]
    return tuple(out)
