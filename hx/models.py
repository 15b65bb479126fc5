"""Effects of library functions on abstract values.

Content of library objects:
  string, string_view, streams   F(o,'$s')  value term
  vectors and other containers   F(o,'$n')  size, ('I', o, i) elements, F(o,'$q') sequence value
  unique_ptr                     F(o,'$p')  pointer
  optional                       F(o,'$has'), F(o,'$val')
  function                       F(o,'$has')
  iterators                      F(o,'$c') container, F(o,'$i') index
"""
from .dom import *
from .facts import short

NPOS = ("i", MAXU64)
EMPTY = ("str", "")


def kind(t):
    t = strip_cv(noref(t or ""))
    s = short(t)
    if s in ("std::basic_string",):
        return "string"
    if s == "std::basic_string_view":
        return "view"
    if s in ("std::vector", "std::multimap", "std::map", "std::initializer_list", "std::deque", "std::list", "std::set",
             "std::unordered_map", "std::unordered_set", "std::multiset", "std::array", "std::span"):
        return "seq"
    if s in ("std::unique_ptr", "std::shared_ptr"):
        return "uptr"
    if s == "std::optional":
        return "opt"
    if s == "std::function":
        return "func"
    if s == "std::pair":
        return "pair"
    if s in ("__normal_iterator", "std::reverse_iterator", "std::_Rb_tree_const_iterator", "std::_Rb_tree_iterator"):
        return "iter"
    if "stream" in s and s.startswith("std::"):
        return "stream"
    return None


def cat(*ps):
    out = []
    for p in ps:
        for x in (p[2:] if p[:2] == ("ap", "cat") else (p,)):
            if x == EMPTY:
                continue
            if out and out[-1][0] == "str" and x[0] == "str":
                out[-1] = ("str", out[-1][1] + x[1])
            else:
                out.append(x)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return ("ap", "cat") + tuple(out)


def pieces(t):
    if t == EMPTY:
        return ()
    return t[2:] if t[:2] == ("ap", "cat") else (t,)


def strsize(t):
    if t[0] == "str":
        return ("i", len(t[1]))
    if t[:2] == ("ap", "cat"):
        r = I0
        for x in t[2:]:
            r = add(r, strsize(x))
        return r
    if t[:2] in (("ap", "upd"),):
        return strsize(t[2])
    if t[:2] == ("ap", "chr"):
        return I1
    if t[:2] == ("ap", "sv"):
        return t[3]
    if t[:2] == ("ap", "prefix"):
        return t[3]
    if t[:2] == ("ap", "rep"):
        return t[2]
    v = ("ap", "size", t)
    TYPES.setdefault(v, "unsigned long")
    return v


def chr_(t):
    if t[0] == "i":
        return ("str", chr(t[1] & 255))
    return ("ap", "chr", t)


def S(st, loc):
    return st.load(F(loc, "$s"))


def setS(st, loc, v):
    st.clear(loc)
    st.alias[loc] = ("H", fresh(), None)
    st.store[F(loc, "$s")] = v


def cstr(p):
    """content of a C string"""
    if p[0] == "str":
        return ("str", p[1].split("\0")[0])
    if p[:2] == ("ap", "data") and p[2][0] == "str":
        return p[2]
    return ("ap", "cstr", p)


def value(I, st, loc, t):
    k = kind(t)
    if k in ("string", "view", "stream"):
        return S(st, loc)
    if k == "uptr":
        return st.load(F(loc, "$p"))
    if k == "pair":
        a = targs(t)
        return ("ap", "pair", scalar_or_value(I, st, F(loc, "first"), a[0]), scalar_or_value(I, st, F(loc, "second"), a[1]))
    if k == "seq":
        return ("ap", "vec", st.load(F(loc, "$q")))
    if k == "opt":
        a = targs(t)
        h = st.load(F(loc, "$has"), "bool")
        if st.decide(h) is False:
            return ("ap", "none")
        if st.decide(h) is True:
            return ("ap", "some", scalar_or_value(I, st, F(loc, "$val"), a[0]))
        return ("ap", "opt", h, scalar_or_value(I, st, F(loc, "$val"), a[0]))
    if k == "iter":
        return ("ap", "iter", st.load(F(loc, "$c")), st.load(F(loc, "$i")))
    t2 = strip_cv(noref(t or ""))
    if any(is_under(x, loc) and x != loc for x in st.store):
        r = I.P.records.get(t2)
        if r and r.get("fields"):
            return ("ap", "rec:" + t2) + tuple(scalar_or_value(I, st, F(loc, f["name"]), f["t"]) for f in I.rec_fields(t2))
    return ("obj", st.origin(loc))


def scalar_or_value(I, st, loc, t):
    if I.is_class(t):
        return value(I, st, loc, t)
    return st.load(loc, t)


def size(I, st, loc, t):
    t = strip_cv(noref(t or ""))
    k = kind(t)
    if k in ("string", "view"):
        return strsize(S(st, loc))
    if t.endswith("]"):
        try:
            return ("i", int(t[t.rindex("[") + 1:-1]))
        except ValueError:
            return None
    v = st.load(F(loc, "$n"), "unsigned long")
    TYPES.setdefault(v, "unsigned long")
    if "tokenizer" in t:
        st._setdom(v, lo=0, hi=2 ** 31 - 2)  # texts are shorter than 2 GiB
    return v


def known_length(I, st, base):
    return I.lens.get(base)


def moved_from(I, st, loc, t):
    k = kind(t)
    if k == "uptr":
        I.setv(st, F(loc, "$p"), I0)
    elif k == "seq":
        empty_seq(I, st, loc)
    elif k == "iter":
        pass
    elif k == "pair":
        a = targs(t)
        for f, x in zip(("first", "second"), a):
            if I.is_class(x):
                moved_from(I, st, F(loc, f), x)
    elif k == "opt":
        a = targs(t)
        if a and I.is_class(a[0]):
            moved_from(I, st, F(loc, "$val"), a[0])
    else:
        st.havoc(loc, "moved")


def empty_seq(I, st, loc):
    st.clear(loc)
    st.alias[loc] = ("H", fresh(), None)
    I.setv(st, F(loc, "$n"), I0, "unsigned long")
    st.store[F(loc, "$q")] = ("ap", "cat")
    st.store[F(loc, "$q")] = EMPTY


def null_ptr_type(t):
    return targs(t)[0] + " *" if targs(t) else "void *"


def make(I, st, fr, e, loc, t, args, ptypes=()):
    """constructs an object of type t at loc from argument values; [state]"""
    t = strip_cv(noref(t))
    k = kind(t)
    st.clear(loc)
    if not I.is_class(t):
        v = I.load(args[0], st, t) if args else I0
        I.setv(st, loc, v if v is not None else I.fresh_ap("v", t), t)
        return [st]
    st.alias[loc] = ("H", fresh(), None)
    if len(args) == 1 and args[0] is not None and args[0][0] == "LV":
        src = args[0][1]
        at = ptypes[0] if ptypes else ""
        if strip_cv(noref(at)) == t or kind(at) == k and k is not None:
            if at.endswith("&&"):
                I.move_obj(st, loc, src, t)
            else:
                c = [f for f in I.P.fn.values() if f.get("record") == t and f.get("copyctor") and f["inrepo"] and f.get("has_body")]
                if c and c[0]["id"] not in fr.stack() and I.c.inline(I, c[0], fr):
                    return [x for _, x in I.inline_call(c[0], loc, [("LV", src)], st, fr, e)]
                st.copy_obj(loc, src)
            return [st]
    if k == "string":
        if len(args) == 1 and ptypes and args[0] is not None and args[0][0] == "LV" and is_ptr(strip_cv(noref(ptypes[0]))):
            args = [st.load(args[0][1], strip_cv(noref(ptypes[0])))]
        return ctor_string(I, st, fr, e, None, loc, args)
    if k == "uptr":
        p = I0
        if args:
            if args[0] and args[0][0] == "LV":
                p = st.load(args[0][1]) if not kind(ptypes[0] if ptypes else "") else st.load(F(args[0][1], "$p"))
            else:
                p = args[0]
        I.setv(st, F(loc, "$p"), p, null_ptr_type(t))
        return [st]
    if k == "pair" and len(args) == 2:
        a = targs(t)
        sts = [st]
        for f, x, v, i in (("first", a[0], args[0], 0), ("second", a[1], args[1], 1)):
            pt = ptypes[i] if i < len(ptypes) else ""
            sts = [z for y in sts for z in make(I, y, fr, e, F(loc, f), x, [v], [pt])]
        return sts
    if k == "seq" and not args:
        empty_seq(I, st, loc)
        return [st]
    if k == "opt":
        return [x for _, x in ctor_opt(I, st, fr, e, {"params": [{"t": p} for p in ptypes]}, loc, args, t)]
    cs = [f for f in I.P.fn.values() if f.get("record") == t and f["kind"] == "ctor" and not f.get("copyctor") and not f.get("movector")
          and len(f["params"]) == len(args) and f.get("has_body") and f["inrepo"]]
    if len(cs) == 1:
        vals = []
        for p, a in zip(cs[0]["params"], args):
            if not is_ref(p["t"]) and not I.is_class(p["t"]):
                a = I.load(a, st, p["t"])
            vals.append(a)
        return [x for _, x in I.inline_call(cs[0], loc, vals, st, fr, e)]
    return [st]


# ------------------------------------------------------------------ constructors
def ctor_string(I, st, fr, e, fn, loc, args):
    pts = [p["t"] for p in fn["params"]] if fn else []
    args = [a for a, p in zip(args, pts) if not short(strip_cv(noref(p))).startswith("std::allocator")] if pts else list(args)
    pts = [p for p in pts if not short(strip_cv(noref(p))).startswith("std::allocator")]

    def done(v):
        setS(st, loc, v)
        return [(None, st)] if fn is not None else [st]

    if not args:
        return done(EMPTY)
    a = args[0]
    if a is not None and a[0] == "LV":
        pt = pts[0] if pts else ""
        if pts and kind(pt) not in ("string", "view") and not (pt and not I.is_class(pt)):
            return done(("ap", "str", ("obj", st.origin(a[1]))))
        if pts and not I.is_class(pt):
            a = st.load(a[1], pt)
        elif not pts and st.store.get(a[1]) is not None:
            a = st.load(a[1])
        else:
            s = S(st, a[1])
            if len(args) == 1:
                done(s)
                if pt.endswith("&&") and e and e.get("move"):
                    st.havoc(a[1], "moved")
                return [(None, st)] if fn is not None else [st]
            return done(("ap", "substr", s) + tuple(I.load(x, st) or I0 for x in args[1:]))
    if len(args) == 1:
        I.obl("deref", st.nonnull(a), st, fr, e or {}, a)
        if not st.nonnull(a):
            st.assume(a, True)
        return done(cstr(a))
    b = I.load(args[1], st)
    if pts and is_ptr(pts[0]) and int_range(pts[1]):
        if a[0] == "str" and is_const(b):
            return done(("str", a[1][: b[1]]))
        return done(("ap", "sv", a, b))
    if pts and int_range(pts[0]):
        return done(("ap", "rep", a, b))
    return done(("ap", "range") + tuple(x if x is not None and x[0] != "LV" else ("obj", st.origin(x[1])) for x in args))


def ctor_view(I, st, fr, e, fn, loc, args):
    return ctor_string(I, st, fr, e, fn, loc, args)


def ctor_seq(I, st, fr, e, fn, loc, args):
    pts = [p["t"] for p in fn["params"]] if fn else []
    args = [(a, p) for a, p in zip(args, pts) if "allocator<" not in short(p) + "<" or not short(strip_cv(noref(p))).startswith("std::allocator")]
    args = [(a, p) for a, p in args if not short(strip_cv(noref(p))).startswith("std::allocator")]
    if not args:
        empty_seq(I, st, loc)
        return [(None, st)]
    a, p = args[0]
    if len(args) == 1 and a and a[0] == "LV" and kind(p) == "seq":
        if p.endswith("&&") and short(strip_cv(noref(p))) != "std::initializer_list":
            I.move_obj(st, loc, a[1], p)
        else:
            st.copy_obj(loc, a[1])
        return [(None, st)]
    if len(args) >= 1 and int_range(noref(p)):
        st.havoc(loc)
        I.setv(st, F(loc, "$n"), I.load(a, st, p), "unsigned long")
        return [(None, st)]
    st.havoc(loc)
    return [(None, st)]


def ctor_uptr(I, st, fr, e, fn, loc, args):
    t = (e or {}).get("rec") or (fn or {}).get("record") or ""
    pt = null_ptr_type(t)
    if not args:
        I.setv(st, F(loc, "$p"), I0, pt)
        return [(None, st)]
    a = args[0]
    p0 = fn["params"][0]["t"] if fn else ""
    if a is not None and a[0] == "LV" and kind(p0) == "uptr":
        v = st.load(F(a[1], "$p"), pt)
        st.clear(loc)
        st.alias[loc] = ("H", fresh(), None)
        I.setv(st, F(loc, "$p"), v, pt)
        if loc != a[1]:
            I.setv(st, F(a[1], "$p"), I0, pt)
        return [(None, st)]
    v = I.load(a, st, pt)
    I.setv(st, F(loc, "$p"), v, pt)
    return [(None, st)]


def ctor_opt(I, st, fr, e, fn, loc, args, t=None):
    t = t or (e or {}).get("rec") or (fn or {}).get("record") or ""
    vt = targs(t)[0] if targs(t) else "int"
    p0 = fn["params"][0]["t"] if fn and fn["params"] else ""
    if not args or "nullopt_t" in p0:
        I.setv(st, F(loc, "$has"), I0, "bool")
        return [(None, st)]
    a = args[0]
    if a is not None and a[0] == "LV" and kind(p0) == "opt":
        if p0.endswith("&&"):
            I.move_obj(st, loc, a[1], t)
        else:
            st.copy_obj(loc, a[1])
        return [(None, st)]
    sts = make(I, st, fr, e, F(loc, "$val"), vt, [a], [p0])
    for x in sts:
        I.setv(x, F(loc, "$has"), I1, "bool")
    return [(None, x) for x in sts]


def ctor_func(I, st, fr, e, fn, loc, args):
    if not args:
        I.setv(st, F(loc, "$has"), I0, "bool")
        return [(None, st)]
    a = args[0]
    p0 = fn["params"][0]["t"] if fn else ""
    if a is not None and a[0] == "LV" and kind(p0) == "func":
        if p0.endswith("&&"):
            I.move_obj(st, loc, a[1], p0)
        else:
            st.copy_obj(loc, a[1])
        return [(None, st)]
    if a == I0:
        I.setv(st, F(loc, "$has"), I0, "bool")
        return [(None, st)]
    I.setv(st, F(loc, "$has"), I1, "bool")
    v = a
    if a is not None and a[0] == "LV":
        v = st.store.get(a[1]) or ("obj", st.origin(a[1]))
    st.store[F(loc, "$fn")] = v
    return [(None, st)]


def ctor_pair(I, st, fr, e, fn, loc, args):
    t = (e or {}).get("rec") or (fn or {}).get("record") or ""
    pts = [p["t"] for p in fn["params"]] if fn else []
    if len(args) == 1 and (e.get("copy") or e.get("move")):
        if e.get("move"):
            a = targs(t)
            for f, x in zip(("first", "second"), a):
                I.move_obj(st, F(loc, f), F(args[0][1], f), x)
        else:
            st.copy_obj(loc, args[0][1])
        return [(None, st)]
    if len(args) != 2:
        return [(None, st)]
    return [(None, x) for x in make(I, st, fr, e, loc, t, args, pts)]


def ctor_stream(I, st, fr, e, fn, loc, args):
    if not args:
        setS(st, loc, EMPTY)
        return [(None, st)]
    return None


def ctor_iter(I, st, fr, e, fn, loc, args):
    if len(args) == 1 and args[0] and args[0][0] == "LV":
        st.copy_obj(loc, args[0][1])
        return [(None, st)]
    if len(args) == 1 and (e.get("rec") or "").startswith("std::reverse_iterator"):
        I.setv(st, F(loc, "$c"), ("ap", "ptr"))
        I.setv(st, F(loc, "$i"), I.load(args[0], st))
        return [(None, st)]
    return None


def lookup_ctor(I, rec):
    k = kind(rec + "<>" if "<" not in rec else rec)
    return {"string": ctor_string, "view": ctor_view, "seq": ctor_seq, "uptr": ctor_uptr, "opt": ctor_opt, "func": ctor_func,
            "pair": ctor_pair, "stream": ctor_stream, "iter": ctor_iter}.get(k)


# ------------------------------------------------------------------ functions
REG = {}


def reg(*names):
    def d(f):
        for n in names:
            REG[n] = f
        return f
    return d


PREFIX = [("std::basic_string::", "string"), ("std::basic_string_view::", "string"), ("std::vector::", "vec"), ("std::unique_ptr::", "uptr"),
          ("std::optional::", "opt"), ("std::function::", "func"), ("__normal_iterator::", "iter"), ("std::reverse_iterator::", "iter"),
          ("std::array::", "vec"), ("std::_Optional_base_impl::", "opt"), ("std::pair::", "pair"), ("std::__shared_ptr_access::", "uptr"),
          ("std::initializer_list::", "vec"), ("std::deque::", "vec"), ("std::list::", "vec"),
          ("std::_Rb_tree_const_iterator::", "iter"), ("std::_Rb_tree_iterator::", "iter")]


def lookup(I, name, fn):
    m = REG.get(name)
    if m:
        return m
    for p, c in PREFIX:
        if name.startswith(p):
            m = REG.get(c + "." + name[len(p):])
            if m:
                return m
    if name.startswith("std::basic_") and "stream" in name or name.startswith("std::basic_ios"):
        m = REG.get("stream." + name.rsplit("::", 1)[1] if "operator" not in name else "stream." + name[name.index("operator"):])
        if m:
            return m
    return None


def lv(loc):
    return ("LV", loc)


def newobj(st, h=None):
    loc = ("T", fresh())
    st.alias[loc] = ("H", fresh(), h)
    return loc


# --- utilities
@reg("std::move", "std::forward", "std::as_const")
def m_move(I, st, fr, e, fn, obj, args):
    if len(args) == 1:
        return [(args[0], st)]
    if len(args) == 3 and fn:
        return range_append(I, st, fr, e, args)
    return None


def range_append(I, st, fr, e, args):
    """copy/move of [first, last) to a back inserter"""
    f, l, o = args
    if not all(a and a[0] == "LV" for a in args):
        return None
    c1, c2, dst = (st.load(F(a[1], "$c")) for a in args)
    if c1[0] == "ap" or dst[0] not in ("addr", "rd", "ap"):
        return None
    src = loc_of(c1)
    d = loc_of(dst)
    i0, i1 = st.load(F(f[1], "$i")), st.load(F(l[1], "$i"))
    append_range(I, st, src, i0, i1, d)
    out = newobj(st)
    st.copy_obj(out, o[1])
    return [(lv(out), st)]


def loc_of(p):
    return p[1] if p[0] == "addr" else ("P", p)


def append_range(I, st, src, i0, i1, d):
    n = size(I, st, src, "std::vector<>")
    if i0 == I0 and i1 == n:
        q = st.load(F(src, "$q"))
    else:
        q = ("ap", "slice", st.load(F(src, "$q")), i0, i1)
    dn = size(I, st, d, "std::vector<>")
    dq = st.load(F(d, "$q"))
    # earlier elements keep their values; new ones are unknown
    empty = dn == I0
    if empty and i0 == I0 and i1 == n:
        st.copy_obj(d, src)
    else:
        keep = [(k, v) for k, v in st.store.items() if is_elem(k, d)]
        st.alias[("I", d, "*")] = ("H", fresh(), "appended")
        for k, v in keep:
            del st.store[k]
        for k in [k for k in st.alias if is_elem(k, d) and k != ("I", d, "*")]:
            del st.alias[k]
    I.setv(st, F(d, "$n"), add(dn, add(i1, i0, -1)), "unsigned long")
    st.store[F(d, "$q")] = cat(dq, q)
    I.event(st, "append", ("addr", d) if d[0] != "P" else d[1], q, src)


def is_elem(k, d):
    x = k
    while x[0] in ("F", "I"):
        if x[0] == "I" and x[1] == d:
            return True
        x = x[1]
    return False


@reg("std::copy")
def m_copy(I, st, fr, e, fn, obj, args):
    return range_append(I, st, fr, e, args)


@reg("std::exchange")
def m_exchange(I, st, fr, e, fn, obj, args):
    t = fn["ret"]
    loc = args[0][1]
    out = ("T", fresh())
    if I.is_class(t):
        I.move_obj(st, out, loc, t)
        sts = assign_from(I, st, fr, e, loc, t, args[1], fn["params"][1]["t"])
        return [(lv(out), x) for x in sts]
    old = st.load(loc, t)
    I.setv(st, loc, I.load(args[1], st, t), t)
    return [(old, st)]


def assign_from(I, st, fr, e, loc, t, v, pt):
    return make(I, st, fr, e, loc, t, [v], [pt])


@reg("std::swap", "std::iter_swap")
def m_swap(I, st, fr, e, fn, obj, args):
    t = noref(fn["params"][0]["t"])
    return do_swap(I, st, fr, e, args[0][1], args[1][1], t)


def do_swap(I, st, fr, e, a, b, t):
    if not I.is_class(t):
        x, y = st.load(a, t), st.load(b, t)
        I.setv(st, a, y, t)
        I.setv(st, b, x, t)
        return [(None, st)]
    t = strip_cv(t)
    r = I.P.records.get(t)
    if r is not None and r.get("inrepo"):
        mc = ma = None
        for m in r.get("methods", []):
            f = I.P.fn.get(m)
            if f and f.get("movector"):
                mc = f
            if f and f.get("moveassign"):
                ma = f
        tmp = ("T", fresh())
        sts = [st]
        for op, d, s in ((mc, tmp, a), (ma, a, b), (ma, b, tmp)):
            nxt = []
            for x in sts:
                if op is None:
                    x.copy_obj(d, s)  # falls back to copying
                    nxt.append(x)
                elif op.get("has_body") and not op.get("defaulted"):
                    nxt += [y for _, y in I.inline_call(op, d, [lv(s)], x, fr, e)]
                else:
                    I.move_fields(x, d, s, t, fr)
                    nxt.append(x)
            sts = nxt
        for x in sts:
            x.clear(tmp)
        return [(None, x) for x in sts]
    tmp = ("T", fresh())
    if t.startswith("std::vector<"):
        I.event(st, "swap", *[("addr", x) if x[0] != "P" else x[1] for x in (a, b)])
    st.copy_obj(tmp, a)
    st.copy_obj(a, b)
    st.copy_obj(b, tmp)
    st.clear(tmp)
    return [(None, st)]


@reg("vec.swap", "uptr.swap", "string.swap", "opt.swap", "func.swap", "std::multimap::swap", "std::map::swap", "pair.swap")
def m_memswap(I, st, fr, e, fn, obj, args):
    return do_swap(I, st, fr, e, obj, args[0][1], fn["record"])


@reg("std::min", "std::max")
def m_minmax(I, st, fr, e, fn, obj, args):
    if len(args) != 2:
        return None
    t = noref(fn["params"][0]["t"])
    a, b = I.load(args[0], st, t), I.load(args[1], st, t)
    mx = fn["qn"].startswith("std::max")
    out = []
    for truth, x in I.split(mk_lt(a, b) if not mx else mk_lt(b, a), st):
        out.append((args[0] if truth else args[1], x))
    return out


@reg("std::addressof")
def m_addressof(I, st, fr, e, fn, obj, args):
    l = args[0][1]
    return [(l[1] if l[0] == "P" else ("addr", l), st)]


@reg("std::operator|")
def m_or(I, st, fr, e, fn, obj, args):
    return [(I.typed(("op", "|", I.load(args[0], st), I.load(args[1], st)), fn["ret"]), st)]


# --- strings
@reg("string.size", "string.length")
def m_strsize(I, st, fr, e, fn, obj, args):
    return [(strsize(S(st, obj)), st)]


@reg("string.empty")
def m_strempty(I, st, fr, e, fn, obj, args):
    return [(mk_eq(strsize(S(st, obj)), I0), st)]


@reg("string.c_str", "string.data")
def m_cstr(I, st, fr, e, fn, obj, args):
    v = ("ap", "data", S(st, obj))
    TYPES.setdefault(v, "const char *")
    st.dom.setdefault(v, (1, None, frozenset((0,)), None))
    return [(v, st)]


@reg("string.operator[]")
def m_strindex(I, st, fr, e, fn, obj, args):
    s = S(st, obj)
    i = I.load(args[0], st)
    n = strsize(s)
    const = fn.get("const")
    isview = fn["qn"].startswith("std::basic_string_view")
    ok = st.le(i, n) if not isview else st.lt(i, n)
    I.obl("bounds", ok, st, fr, e, (i, n))
    if const:
        t = ("ap", "at", s, i)
        TYPES.setdefault(t, "char")
        loc = ("T", fresh())
        I.setv(st, loc, t, "char")
        return [(lv(loc), st)]
    return [(lv(("I", obj, i)), st)]


@reg("string.front", "string.back")
def m_strfront(I, st, fr, e, fn, obj, args):
    s = S(st, obj)
    I.obl("bounds", st.lt(I0, strsize(s)), st, fr, e, (I0, strsize(s)))
    loc = ("T", fresh())
    I.setv(st, loc, ("ap", fn["name"], s), "char")
    return [(lv(loc), st)]


@reg("string.pop_back")
def m_strpop(I, st, fr, e, fn, obj, args):
    s = S(st, obj)
    I.obl("bounds", st.lt(I0, strsize(s)), st, fr, e, (I0, strsize(s)))
    setS(st, obj, ("ap", "prefix", s, add(strsize(s), I1, -1)))
    return [(None, st)]


def textof(I, st, fr, e, v, t):
    """string value of an argument (string, view, C string, char)"""
    if v is not None and v[0] == "LV":
        if kind(t) in ("string", "view"):
            return S(st, v[1])
        if not I.is_class(t):
            v = st.load(v[1], t)
        else:
            return value(I, st, v[1], t)
    if v is None:
        return ("ap", "fmt", ("n", fresh()))
    if strip_cv(noref(t)) in ("char", "signed char", "unsigned char"):
        return chr_(v)
    if is_ptr(noref(t)):
        I.obl("deref", st.nonnull(v), st, fr, e, v)
        return cstr(v)
    return ("ap", "fmt", v)


@reg("string.append", "string.operator+=", "string.push_back")
def m_append(I, st, fr, e, fn, obj, args):
    pts = [p["t"] for p in fn["params"]]
    if len(args) == 1:
        t = textof(I, st, fr, e, args[0], pts[0])
    elif is_ptr(pts[0]) and len(args) == 2 and int_range(pts[1]):
        t = ("ap", "sv", I.load(args[0], st), I.load(args[1], st))
        a0, a1 = t[2], t[3]
        if a0[:2] == ("ap", "data") and a1 == strsize(a0[2]):
            t = a0[2]
    elif int_range(pts[0]):
        t = ("ap", "rep", I.load(args[0], st), I.load(args[1], st))
    else:
        t = ("ap", "appended", ("n", fresh()))
    setS(st, obj, cat(S(st, obj), t))
    return [(lv(obj) if fn["name"] != "push_back" else None, st)]


@reg("string.insert")
def m_insert(I, st, fr, e, fn, obj, args):
    pts = [p["t"] for p in fn["params"]]
    if len(args) == 2 and int_range(pts[0]):
        pos = I.load(args[0], st)
        t = textof(I, st, fr, e, args[1], pts[1])
        s = S(st, obj)
        setS(st, obj, cat(t, s) if pos == I0 else cat(s, t) if pos == strsize(s) else ("ap", "insert", s, pos, t))
        return [(lv(obj), st)]
    setS(st, obj, ("ap", "insert", S(st, obj), ("n", fresh())))
    return [(lv(obj) if is_ref(fn["ret"]) else lv(newobj(st)), st)]


@reg("string.operator=", "string.assign")
def m_strassign(I, st, fr, e, fn, obj, args):
    pts = [p["t"] for p in fn["params"]]
    if len(args) != 1:
        setS(st, obj, ("ap", "sv", I.load(args[0], st), I.load(args[1], st)) if is_ptr(pts[0]) else ("ap", "assigned", ("n", fresh())))
        return [(lv(obj), st)]
    t = textof(I, st, fr, e, args[0], pts[0])
    src = args[0][1] if args[0] is not None and args[0][0] == "LV" else None
    if src == obj:
        return [(lv(obj), st)]
    setS(st, obj, t)
    if pts[0].endswith("&&") and src is not None:
        st.havoc(src, "moved")
    return [(lv(obj), st)]


@reg("string.clear")
def m_strclear(I, st, fr, e, fn, obj, args):
    setS(st, obj, EMPTY)
    return [(None, st)]


@reg("string.erase")
def m_erase(I, st, fr, e, fn, obj, args):
    pts = [p["t"] for p in fn["params"]]
    s = S(st, obj)
    if pts and int_range(pts[0]):
        pos = I.load(args[0], st)
        cnt = I.load(args[1], st) if len(args) > 1 else NPOS
        n = strsize(s)
        I.obl("bounds", st.le(pos, n), st, fr, e, (pos, n))
        if cnt == NPOS:
            setS(st, obj, ("ap", "prefix", s, pos))
            return [(lv(obj), st)]
    setS(st, obj, ("ap", "erase", s, ("n", fresh())))
    return [(lv(obj) if is_ref(fn["ret"]) else lv(newobj(st)), st)]


@reg("string.resize", "string.reserve", "string.shrink_to_fit")
def m_resize(I, st, fr, e, fn, obj, args):
    if fn["name"] == "resize":
        s = S(st, obj)
        n = I.load(args[0], st)
        if st.le(n, strsize(s)):
            setS(st, obj, ("ap", "prefix", s, n))
        else:
            v = ("ap", "resized", s, n)
            setS(st, obj, v)
            st.assume(mk_eq(strsize(v), n), True)
    return [(None, st)]


@reg("string.find", "string.rfind", "string.find_first_of", "string.find_last_of", "string.find_first_not_of", "string.find_last_not_of")
def m_find(I, st, fr, e, fn, obj, args):
    pts = [p["t"] for p in fn["params"]]
    s = S(st, obj)
    w = textof(I, st, fr, e, args[0], pts[0])
    pos = I.load(args[1], st) if len(args) > 1 else I0
    r = ("ap", fn["name"], s, w, pos)
    TYPES.setdefault(r, "unsigned long")
    a, b = st.copy(), st
    out = []
    if a.assume(mk_eq(r, NPOS), True):
        out.append((NPOS, a))
    ok = b.assume(mk_eq(r, NPOS), False)
    end = strsize(w) if fn["name"] in ("find", "rfind") else I1
    ok = ok and b.add_rel(lin_comb(lin_comb(to_lin(r), 1, to_lin(end), 1), 1, to_lin(strsize(s)), -1))
    if fn["name"] in ("find", "find_first_of", "find_first_not_of"):
        ok = ok and b.add_rel(lin_comb(to_lin(pos), 1, to_lin(r), -1))
    if ok:
        out.append((r, b))
    return out


@reg("string.substr")
def m_substr(I, st, fr, e, fn, obj, args):
    s = S(st, obj)
    out = newobj(st)
    a = [I.load(x, st) for x in args]
    v = s if all(x in (I0, NPOS) for x in a) and (not a or a[0] == I0) else ("ap", "substr", s) + tuple(a)
    setS(st, out, v)
    return [(lv(out), st)]


@reg("string.compare")
def m_compare(I, st, fr, e, fn, obj, args):
    pts = [p["t"] for p in fn["params"]]
    vals = []
    for a, p in zip(args, pts):
        if int_range(p):
            vals.append(I.load(a, st))
        elif is_ptr(p):
            v = I.load(a, st)
            I.obl("deref", st.nonnull(v), st, fr, e, v)
            vals.append(cstr(v))
        else:
            vals.append(textof(I, st, fr, e, a, p))
    if len(vals) == 1:
        return [(mk_not(streq(S(st, obj), vals[0])) if False else I.typed(("ap", "compare", S(st, obj), vals[0]), "int"), st)]
    return [(I.typed(("ap", "compare", S(st, obj)) + tuple(vals), "int"), st)]


def streq(a, b):
    if a == b:
        return I1
    if a[0] == "str" and b[0] == "str":
        return I0
    if _key(b) < _key(a):
        a, b = b, a
    t = ("ap", "streq", a, b)
    TYPES.setdefault(t, "bool")
    return t


from .dom import _key  # noqa: E402


@reg("std::operator==", "std::operator!=")
def m_eq(I, st, fr, e, fn, obj, args):
    pts = [p["t"] for p in fn["params"]]
    ne = "operator!=" in fn["qn"]
    ks = [kind(p) for p in pts]
    if "iter" in ks and None not in [a for a in args]:
        r = mk_eq(st.load(F(args[0][1], "$i")), st.load(F(args[1][1], "$i")))
    elif "string" in ks or "view" in ks:
        if "opt" in ks:
            r = I.typed(("ap", "opteq", value_arg(I, st, args[0], pts[0]), value_arg(I, st, args[1], pts[1])), "bool")
        else:
            r = streq(textof(I, st, fr, e, args[0], pts[0]), textof(I, st, fr, e, args[1], pts[1]))
    elif "uptr" in ks or "func" in ks:
        vals = []
        for a, p, k in zip(args, pts, ks):
            if k == "uptr":
                vals.append(st.load(F(a[1], "$p"), null_ptr_type(p)))
            elif k == "func":
                vals.append(st.load(F(a[1], "$has"), "bool"))
            else:
                vals.append(I.load(a, st))
        r = mk_eq(*vals)
    elif "opt" in ks:
        o = [(a, p) for a, p, k in zip(args, pts, ks) if k == "opt"]
        if len(o) == 1 and any("nullopt" in p for p in pts):
            r = mk_not(st.load(F(o[0][0][1], "$has"), "bool"))
        else:
            r = I.typed(("ap", "opteq", value_arg(I, st, args[0], pts[0]), value_arg(I, st, args[1], pts[1])), "bool")
    else:
        r = I.typed(("ap", "opeq", value_arg(I, st, args[0], pts[0]), value_arg(I, st, args[1], pts[1])), "bool")
    return [(mk_not(r) if ne else r, st)]


@reg("__gnu_cxx::operator==", "__gnu_cxx::operator!=", "operator==", "operator!=")
def m_eq2(I, st, fr, e, fn, obj, args):
    return m_eq(I, st, fr, e, fn, obj, args)


def value_arg(I, st, v, t):
    return I.snapshot(st, v, t)


@reg("std::operator+")
def m_plus(I, st, fr, e, fn, obj, args):
    pts = [p["t"] for p in fn["params"]]
    if not any(kind(p) == "string" for p in pts):
        return None
    v = cat(*[textof(I, st, fr, e, a, p) for a, p in zip(args, pts)])
    out = newobj(st)
    setS(st, out, v)
    return [(lv(out), st)]


@reg("std::to_string")
def m_tostring(I, st, fr, e, fn, obj, args):
    out = newobj(st)
    setS(st, out, ("ap", "to_string", I.load(args[0], st)))
    return [(lv(out), st)]


@reg("string.operator basic_string_view", "std::basic_string::operator basic_string_view")
def m_toview(I, st, fr, e, fn, obj, args):
    out = newobj(st)
    setS(st, out, S(st, obj))
    return [(lv(out), st)]


@reg("strlen", "std::strlen")
def m_strlen(I, st, fr, e, fn, obj, args):
    v = I.load(args[0], st)
    I.obl("deref", st.nonnull(v), st, fr, e, v)
    return [(strsize(cstr(v)), st)]


@reg("std::quoted")
def m_quoted(I, st, fr, e, fn, obj, args):
    out = newobj(st)
    t = textof(I, st, fr, e, args[0], fn["params"][0]["t"])
    rest = tuple(I.load(a, st) or I0 for a in args[1:])
    st.store[F(out, "$m")] = ("ap", "quoted", t) + rest
    return [(lv(out), st)]


@reg("std::setw", "std::setfill", "std::setprecision")
def m_setw(I, st, fr, e, fn, obj, args):
    out = newobj(st)
    st.store[F(out, "$m")] = ("ap", "manip")
    return [(lv(out), st)]


# --- streams
@reg("std::operator<<", "std::__detail::operator<<", "stream.operator<<", "boost::program_options::operator<<", "std::basic_ostream::operator<<", "stream.write", "stream.put")
def m_out(I, st, fr, e, fn, obj, args):
    pts = [p["t"] for p in fn["params"]]
    if obj is None:
        if not args or args[0] is None or args[0][0] != "LV":
            return None
        obj, args, pts = args[0][1], args[1:], pts[1:]
    if not args:
        return None
    a, p = args[0], pts[0]
    if fn["name"] == "write" and len(args) == 2:
        t = ("ap", "sv", I.load(a, st), I.load(args[1], st))
        if t[2][:2] == ("ap", "data") and t[3] == strsize(t[2][2]):
            t = t[2][2]
    elif a is not None and a[0] == "LV" and F(a[1], "$m") in st.store:
        t = st.store[F(a[1], "$m")]
        if t == ("ap", "manip"):
            return [(lv(obj), st)]
    elif a is not None and a[0] == "fn":
        g = I.P.fn.get(a[1])
        nm = short(g["qn"]) if g else ""
        t = ("str", "\n") if nm == "std::endl" else EMPTY
    else:
        t = textof(I, st, fr, e, a, p)
        if t[:2] == ("ap", "sv"):
            pass
    I.event(st, "out", obj, t, (fr.fn["qn"], e.get("l")))
    st.store[F(obj, "$s")] = cat(S(st, obj), t)
    return [(lv(obj), st)]


@reg("stream.str")
def m_str(I, st, fr, e, fn, obj, args):
    if args:
        setS(st, obj, textof(I, st, fr, e, args[0], fn["params"][0]["t"]))
        return [(None, st)]
    out = newobj(st)
    setS(st, out, S(st, obj))
    return [(lv(out), st)]


# --- vectors
@reg("vec.size")
def m_size(I, st, fr, e, fn, obj, args):
    return [(size(I, st, obj, "std::vector<>"), st)]


@reg("vec.empty")
def m_empty(I, st, fr, e, fn, obj, args):
    return [(mk_eq(size(I, st, obj, "std::vector<>"), I0), st)]


@reg("std::multimap::size", "std::map::size", "std::multimap::empty", "std::map::empty", "std::set::empty", "std::set::size")
def m_msize(I, st, fr, e, fn, obj, args):
    n = size(I, st, obj, "std::vector<>")
    return [(n if fn["name"] == "size" else mk_eq(n, I0), st)]


@reg("vec.reserve", "vec.shrink_to_fit")
def m_reserve(I, st, fr, e, fn, obj, args):
    return [(None, st)]


@reg("vec.clear")
def m_clear(I, st, fr, e, fn, obj, args):
    empty_seq(I, st, obj)
    return [(None, st)]


@reg("vec.push_back", "vec.emplace_back", "vec.push_front", "vec.emplace_front")
def m_push(I, st, fr, e, fn, obj, args):
    t = vec_elem(fn["record"])
    n = size(I, st, obj, "std::vector<>")
    front = fn["name"].endswith("front")
    q = st.load(F(obj, "$q"))
    loc = ("I", obj, n)
    if front:
        loc = newobj(st)
    hasq = F(obj, "$q") in st.store
    star = st.alias.get(("I", obj, "*"))
    out = []
    for x in make(I, st, fr, e, loc, t, args, [p["t"] for p in fn["params"]]):
        v = scalar_or_value(I, x, loc, t)
        x.alias.pop(F(obj, "$q"), None)
        x.store[F(obj, "$q")] = cat(q, ("ap", "e", v)) if not front else cat(("ap", "e", v), q)
        I.setv(x, F(obj, "$n"), add(n, I1), "unsigned long")
        if front:
            for k in [k for k in x.store if is_elem(k, obj)]:
                del x.store[k]
            x.alias[("I", obj, "*")] = ("H", fresh(), None)
        I.event(x, "push", ("addr", obj) if obj[0] != "P" else obj[1], v, args[0][1] if args and args[0] and args[0][0] == "LV" else None)
        out.append((lv(loc) if is_ref(fn["ret"]) else None, x))
    return out


def vec_elem(rec):
    a = targs(rec)
    return a[0] if a else "int"


@reg("vec.pop_back")
def m_pop(I, st, fr, e, fn, obj, args):
    n = size(I, st, obj, "std::vector<>")
    I.obl("bounds", st.lt(I0, n), st, fr, e, (I0, n))
    st.assume(mk_lt(I0, n), True)
    q = st.load(F(obj, "$q"))
    I.setv(st, F(obj, "$n"), add(n, I1, -1), "unsigned long")
    ps = pieces(q)
    if ps and ps[-1][:2] == ("ap", "e"):
        st.store[F(obj, "$q")] = cat(*ps[:-1]) if ps[:-1] else EMPTY
    else:
        st.store[F(obj, "$q")] = ("ap", "pop", q)
    return [(None, st)]


@reg("vec.back", "vec.front")
def m_back(I, st, fr, e, fn, obj, args):
    n = size(I, st, obj, "std::vector<>")
    I.obl("bounds", st.lt(I0, n), st, fr, e, (I0, n))
    i = add(n, I1, -1) if fn["name"] == "back" else I0
    return [(lv(("I", obj, i)), st)]


@reg("vec.operator[]")
def m_index(I, st, fr, e, fn, obj, args):
    n = size(I, st, obj, fn.get("record") or "std::vector<>")
    i = I.load(args[0], st)
    I.obl("bounds", st.lt(i, n), st, fr, e, (i, n))
    return [(lv(("I", obj, i)), st)]


@reg("vec.at")
def m_at(I, st, fr, e, fn, obj, args):
    i = I.load(args[0], st)
    n = size(I, st, obj, "std::vector<>")
    out = []
    for truth, x in I.split(mk_lt(i, n), st):
        if truth:
            out.append((lv(("I", obj, i)), x))
        else:
            I.sinks[-1].append((("type", "std::out_of_range", None), x))
    return out


@reg("vec.resize")
def m_vresize(I, st, fr, e, fn, obj, args):
    n = I.load(args[0], st)
    st.alias[("I", obj, "*")] = ("H", fresh(), None)
    for k in [k for k in st.store if is_elem(k, obj)]:
        del st.store[k]
    st.store[F(obj, "$q")] = ("ap", "resized", ("n", fresh()))
    I.setv(st, F(obj, "$n"), n, "unsigned long")
    return [(None, st)]


@reg("vec.insert")
def m_vinsert(I, st, fr, e, fn, obj, args):
    # insert(end, first, last) appends
    if len(args) == 3 and all(a and a[0] == "LV" for a in args):
        n = size(I, st, obj, "std::vector<>")
        pos = st.load(F(args[0][1], "$i"))
        c = st.load(F(args[1][1], "$c"))
        if c[0] in ("addr", "rd", "ap") and pos == n:
            append_range(I, st, loc_of(c), st.load(F(args[1][1], "$i")), st.load(F(args[2][1], "$i")), obj)
            return [(lv(newobj(st)), st)]
    st.havoc(obj, "insert")
    return [(lv(newobj(st)), st)]


@reg("vec.erase")
def m_verase(I, st, fr, e, fn, obj, args):
    st.havoc(obj, "erase")
    return [(lv(newobj(st)), st)]


@reg("vec.operator=", "vec.assign")
def m_vassign(I, st, fr, e, fn, obj, args):
    pts = [p["t"] for p in fn["params"]]
    if len(args) == 1 and kind(pts[0]) == "seq" and args[0][0] == "LV":
        if pts[0].endswith("&&"):
            if args[0][1] != obj:
                I.move_obj(st, obj, args[0][1], pts[0])
        else:
            st.copy_obj(obj, args[0][1])
        return [(lv(obj), st)]
    st.havoc(obj)
    return [(lv(obj), st)]


@reg("std::multimap::operator=", "std::map::operator=")
def m_mapassign(I, st, fr, e, fn, obj, args):
    return m_vassign(I, st, fr, e, fn, obj, args)


@reg("vec.begin", "vec.cbegin", "vec.end", "vec.cend", "string.begin", "string.end", "string.cbegin", "string.cend",
     "std::begin", "std::end", "std::cbegin", "std::cend",
     "std::multimap::begin", "std::multimap::end", "std::multimap::cbegin", "std::multimap::cend",
     "std::map::begin", "std::map::end", "std::map::cbegin", "std::map::cend")
def m_begin(I, st, fr, e, fn, obj, args):
    t = fn.get("record") or (fn["params"][0]["t"] if fn["params"] else "")
    if obj is None:
        obj = args[0][1]
    if not I.is_class(fn["ret"]):
        # pointer iterators
        n = size(I, st, obj, t)
        p = obj[1] if obj[0] == "P" else ("addr", obj)
        v = p if "begin" in fn["name"] else I.typed(add(p, n or I0), fn["ret"])
        return [(v, st)]
    out = newobj(st)
    st.store[F(out, "$c")] = ("addr", obj) if obj[0] != "P" else obj[1]
    st.store[F(out, "$i")] = I0 if "begin" in fn["name"] else size(I, st, obj, t)
    return [(lv(out), st)]


@reg("std::back_inserter")
def m_backins(I, st, fr, e, fn, obj, args):
    out = newobj(st)
    o = args[0][1]
    st.store[F(out, "$c")] = ("addr", o) if o[0] != "P" else o[1]
    return [(lv(out), st)]


@reg("std::make_move_iterator")
def m_moveiter(I, st, fr, e, fn, obj, args):
    if not args or args[0] is None or args[0][0] != "LV":
        return None
    out = newobj(st)
    st.copy_obj(out, args[0][1])
    return [(lv(out), st)]


@reg("iter.operator*", "iter.operator->", "iter.operator[]")
def m_iterderef(I, st, fr, e, fn, obj, args):
    c, i = st.load(F(obj, "$c")), st.load(F(obj, "$i"))
    if c[0] not in ("addr",) and not (c[0] in ("rd", "ap") and c != ("ap", "ptr")) or F(obj, "$c") not in st.store:
        return None
    loc = loc_of(c)
    if args:
        i = add(i, I.load(args[0], st))
    n = size(I, st, loc, "std::vector<>")
    I.obl("bounds", st.le(I0, i) and st.lt(i, n), st, fr, e, (i, n))
    l = ("I", loc, i)
    if fn["name"] == "operator->":
        return [(("addr", l), st)]
    return [(lv(l), st)]


@reg("iter.operator++", "iter.operator--", "iter.operator+=", "iter.operator-=")
def m_iterinc(I, st, fr, e, fn, obj, args):
    i = st.load(F(obj, "$i"))
    d = I1
    post = False
    if "=" in fn["name"]:
        d = I.load(args[0], st)
    elif args:
        post = True
    s = 1 if "+" in fn["name"] else -1
    res = lv(obj)
    if post:
        out = newobj(st)
        st.copy_obj(out, obj)
        res = lv(out)
    I.setv(st, F(obj, "$i"), add(i, d, s), "long")
    return [(res, st)]


@reg("iter.operator+", "iter.operator-")
def m_iterplus(I, st, fr, e, fn, obj, args):
    out = newobj(st)
    st.copy_obj(out, obj)
    I.setv(st, F(out, "$i"), add(st.load(F(obj, "$i")), I.load(args[0], st), 1 if "+" in fn["name"] else -1), "long")
    return [(lv(out), st)]


@reg("std::next", "std::prev")
def m_next(I, st, fr, e, fn, obj, args):
    if not args or args[0] is None or args[0][0] != "LV":
        return None
    out = newobj(st)
    st.copy_obj(out, args[0][1])
    d = I.load(args[1], st) if len(args) > 1 else I1
    I.setv(st, F(out, "$i"), add(st.load(F(out, "$i")), d, 1 if fn["name"] == "next" else -1), "long")
    return [(lv(out), st)]


@reg("std::multimap::equal_range", "std::multimap::lower_bound", "std::multimap::upper_bound", "std::multimap::find",
     "std::multimap::count", "std::multimap::contains", "std::map::find", "std::map::count", "std::map::contains",
     "std::map::equal_range", "std::map::lower_bound", "std::map::upper_bound")
def m_mapfind(I, st, fr, e, fn, obj, args):
    """the entries of one key are a run: ("ap", "maprun", which end, number of entries, key)"""
    if obj is None or len(args) != 1 or args[0] is None or not fn["params"]:
        return None
    t = fn.get("record") or "std::multimap<>"
    n = size(I, st, obj, t)
    if n is None:
        return None
    k = args[0]
    if kind(fn["params"][0]["t"]) in ("string", "view") or k[0] != "LV":
        k = textof(I, st, fr, e, k, fn["params"][0]["t"]) if kind(fn["params"][0]["t"]) in ("string", "view") else I.load(k, st)
    else:
        return None
    if k is None:
        return None
    lo, hi = (I.typed(("ap", "maprun", w, n, k), "long") for w in ("lower", "upper"))
    for a, b in ((I0, lo), (lo, hi), (hi, n)):
        if not st.assume(mk_lt(b, a), False):
            return []
    if t.startswith("std::map"):
        st.assume(mk_lt(add(lo, I1), hi), False)
    name = fn["name"]

    def it(x, i, out=None):
        out = out or newobj(x)
        x.store[F(out, "$c")] = ("addr", obj) if obj[0] != "P" else obj[1]
        x.store[F(out, "$i")] = i
        return out
    if name == "count":
        return [(I.typed(add(hi, lo, -1), "unsigned long"), st)]
    if name == "contains":
        return [(mk_lt(lo, hi), st)]
    if name == "equal_range":
        out = newobj(st)
        it(st, lo, F(out, "first"))
        it(st, hi, F(out, "second"))
        return [(lv(out), st)]
    if name == "find":
        return [(lv(it(x, lo if truth else n)), x) for truth, x in I.split(mk_lt(lo, hi), st)]
    return [(lv(it(st, lo if name == "lower_bound" else hi)), st)]


@reg("std::get")
def m_stdget(I, st, fr, e, fn, obj, args):
    n = str((fn.get("targs") or [""])[0])
    if len(args) == 1 and args[0] is not None and args[0][0] == "LV" and kind(fn["params"][0]["t"]) == "pair" and n in ("0", "1"):
        f = ("first", "second")[int(n)]
        l = F(args[0][1], f)
        if (strip_cv(noref(fn["params"][0]["t"])), f) in I.nn_fields:
            st.assume(st.load(l), True)
        return [(lv(l), st)]
    return None


@reg("std::distance")
def m_distance(I, st, fr, e, fn, obj, args):
    a, b = args[0], args[1]
    if a is None or b is None:
        return None
    if a[0] == "LV" and I.is_class(fn["params"][0]["t"]):
        a, b = st.load(F(a[1], "$i")), st.load(F(b[1], "$i"))
    else:
        a, b = I.load(a, st), I.load(b, st)
    return [(I.typed(add(b, a, -1), "long"), st)]


def rng(I, st, args, fn):
    """(container location or None, first index, last index) of an iterator range"""
    a, b = args[0], args[1]
    if a is None or b is None:
        return None
    if a[0] == "LV" and F(a[1], "$c") in st.store:
        c = st.load(F(a[1], "$c"))
        if c == ("ap", "ptr"):
            return None
        return loc_of(c), st.load(F(a[1], "$i")), st.load(F(b[1], "$i"))
    if a[0] != "LV":
        # pointers into an object
        if a[0] == "addr":
            d = add(b, a, -1)
            return a[1], I0, d
        d = add(b, a, -1)
        return ("P", a), I0, d
    return None


@reg("std::all_of", "std::any_of", "std::none_of", "std::find_if", "std::for_each", "std::count_if", "std::find_if_not")
def m_algo(I, st, fr, e, fn, obj, args):
    name = fn["name"]
    off = 1 if len(args) == 4 else 0  # execution policy
    r = rng(I, st, args[off:], fn)
    if r is None:
        return None
    cont, i0, i1 = r
    f = args[off + 2]
    idx = ("T", fresh())
    I.setv(st, idx, i0, "unsigned long")
    cnt = ("T", fresh())
    I.setv(st, cnt, I0, "long")

    def step(x):
        backs, outs = [], []
        i = x.load(idx, "unsigned long")
        for truth, y in I.split(mk_not(mk_eq(i, i1)), x):
            if not truth:
                outs.append(("X", None, y))
                continue
            if cont in I.lens and y.le(I0, i) and y.lt(i, I.lens[cont]):
                # an argument of the program
                y.assume(y.load(("I", cont, i), "char *"), True)
            for v, z in I.invoke(f, [lv(("I", cont, i))], y, fr, e):
                conts = []
                if name == "for_each":
                    conts = [z]
                else:
                    for tr, w in I.split(I.truth(I.load(v, z, "bool")), z):
                        if name in ("any_of", "find_if", "none_of") and tr or name in ("all_of", "find_if_not") and not tr:
                            outs.append(("R", i if name.startswith("find") else I1 if name == "any_of" else I0, w))
                        else:
                            if name == "count_if" and tr:
                                I.setv(w, cnt, add(w.load(cnt), I1), "long")
                            conts.append(w)
                for w in conts:
                    I.setv(w, idx, add(w.load(idx), I1), "unsigned long")
                    backs.append(w)
        return backs, outs

    res = []
    for k, p, x in I.loop({"l": e.get("l")}, st, fr, step, rng=cont):
        if k == "R":
            v = p
        elif k == "N":
            v = {"any_of": I0, "all_of": I1, "none_of": I1}.get(name)
            if name.startswith("find"):
                v = i1
            if name == "count_if":
                v = x.load(cnt, "long")
        else:
            continue
        if name.startswith("find"):
            if args[off][0] == "LV":
                out = newobj(x)
                x.copy_obj(out, args[off][1])
                x.store[F(out, "$i")] = v
                v = lv(out)
            else:
                v = I.typed(add(args[off], v), fn["ret"])
        elif name == "for_each":
            v = f
        res.append((v, x))
    return res


@reg("std::equal")
def m_equal(I, st, fr, e, fn, obj, args):
    return [(I.fresh_ap("std::equal", "bool"), st)]


# --- unique_ptr
@reg("uptr.operator bool")
def m_ubool(I, st, fr, e, fn, obj, args):
    p = st.load(F(obj, "$p"), null_ptr_type(fn["record"]))
    return [(mk_not(mk_eq(p, I0)), st)]


@reg("uptr.get")
def m_get(I, st, fr, e, fn, obj, args):
    return [(st.load(F(obj, "$p"), null_ptr_type(fn["record"])), st)]


@reg("uptr.operator->")
def m_uarrow(I, st, fr, e, fn, obj, args):
    # the member access that follows reports the dereference
    return [(st.load(F(obj, "$p"), null_ptr_type(fn["record"])), st)]


@reg("uptr.operator*")
def m_uderef(I, st, fr, e, fn, obj, args):
    p = st.load(F(obj, "$p"), null_ptr_type(fn["record"]))
    return [(lv(I.deref(p, st, fr, e)), st)]


@reg("uptr.release")
def m_release(I, st, fr, e, fn, obj, args):
    pt = null_ptr_type(fn["record"])
    p = st.load(F(obj, "$p"), pt)
    I.setv(st, F(obj, "$p"), I0, pt)
    return [(p, st)]


@reg("uptr.reset")
def m_reset(I, st, fr, e, fn, obj, args):
    pt = null_ptr_type(fn["record"])
    I.setv(st, F(obj, "$p"), I.load(args[0], st, pt) if args else I0, pt)
    return [(None, st)]


@reg("uptr.operator=")
def m_uassign(I, st, fr, e, fn, obj, args):
    pt = null_ptr_type(fn["record"])
    a = args[0]
    if a is not None and a[0] == "LV" and kind(fn["params"][0]["t"]) == "uptr":
        p = st.load(F(a[1], "$p"), pt)
        if a[1] != obj:
            I.setv(st, F(a[1], "$p"), I0, pt)
        I.setv(st, F(obj, "$p"), p, pt)
    else:
        I.setv(st, F(obj, "$p"), I0, pt)
    return [(lv(obj), st)]


# --- optional
@reg("opt.operator bool", "opt.has_value")
def m_obool(I, st, fr, e, fn, obj, args):
    return [(st.load(F(obj, "$has"), "bool"), st)]


@reg("opt.operator*", "opt.operator->")
def m_oderef(I, st, fr, e, fn, obj, args):
    h = st.load(F(obj, "$has"), "bool")
    I.obl("optional", st.decide(h) is True, st, fr, e, h)
    st.assume(h, True)
    if fn["name"] == "operator->":
        return [(("addr", F(obj, "$val")), st)]
    return [(lv(F(obj, "$val")), st)]


@reg("opt.value")
def m_ovalue(I, st, fr, e, fn, obj, args):
    out = []
    for truth, x in I.split(st.load(F(obj, "$has"), "bool"), st):
        if truth:
            out.append((lv(F(obj, "$val")), x))
        else:
            I.sinks[-1].append((("type", "std::bad_optional_access", None), x))
    return out


@reg("opt.reset")
def m_oreset(I, st, fr, e, fn, obj, args):
    I.setv(st, F(obj, "$has"), I0, "bool")
    return [(None, st)]


@reg("opt.operator=", "opt.emplace")
def m_oassign(I, st, fr, e, fn, obj, args):
    pts = [p["t"] for p in fn["params"]]
    t = fn["record"]
    vt = targs(t)[0] if targs(t) else "int"
    if args and "nullopt" in pts[0]:
        I.setv(st, F(obj, "$has"), I0, "bool")
        return [(lv(obj), st)]
    if args and kind(pts[0]) == "opt" and args[0][0] == "LV":
        if pts[0].endswith("&&"):
            I.move_obj(st, obj, args[0][1], t)
        else:
            st.copy_obj(obj, args[0][1])
        return [(lv(obj), st)]
    sts = make(I, st, fr, e, F(obj, "$val"), vt, args, pts)
    for x in sts:
        I.setv(x, F(obj, "$has"), I1, "bool")
    return [(lv(obj), x) for x in sts]


@reg("std::make_optional")
def m_makeopt(I, st, fr, e, fn, obj, args):
    t = strip_cv(fn["ret"])
    o = newobj(st)
    vt = targs(t)[0] if targs(t) else "int"
    sts = make(I, st, fr, e, F(o, "$val"), vt, args, [p["t"] for p in fn["params"]])
    for x in sts:
        I.setv(x, F(o, "$has"), I1, "bool")
    return [(lv(o), x) for x in sts]


# --- function
@reg("func.operator bool")
def m_fbool(I, st, fr, e, fn, obj, args):
    return [(st.load(F(obj, "$has"), "bool"), st)]


@reg("func.operator()")
def m_fcall(I, st, fr, e, fn, obj, args):
    h = st.load(F(obj, "$has"), "bool")
    I.obl("function", st.decide(h) is True, st, fr, e, h)
    st.assume(h, True)
    f = st.store.get(F(obj, "$fn"))
    pts = [p["t"] for p in fn["params"]]
    vals = tuple(I.snapshot(st, a, p) for a, p in zip(args, pts))
    v = ("ap", "invoke", ("obj", st.origin(obj))) + vals
    I.event(st, "call", "invoke", fn["id"], ("obj", st.origin(obj)), vals, v, (fr.fn["qn"], e.get("l")))
    ret = fn["ret"]
    if I.is_class(ret):
        out = ("T", fresh())
        st.alias[out] = ("H", v, "invoke")
        return [(lv(out), st)]
    TYPES.setdefault(v, strip_cv(ret))
    return [(v, st)]


@reg("func.operator=")
def m_fassign(I, st, fr, e, fn, obj, args):
    st.clear(obj)
    st.alias[obj] = ("H", fresh(), None)
    r = ctor_func(I, st, fr, e, fn, obj, args)
    return [(lv(obj), x) for _, x in r]


# --- pair
@reg("pair.operator=")
def m_passign(I, st, fr, e, fn, obj, args):
    st.copy_obj(obj, args[0][1])
    return [(lv(obj), st)]


@reg("std::make_pair")
def m_makepair(I, st, fr, e, fn, obj, args):
    out = newobj(st)
    sts = make(I, st, fr, e, out, fn["ret"], args, [p["t"] for p in fn["params"]])
    return [(lv(out), x) for x in sts]


# --- gumbo
@reg("gumbo_normalized_tagname")
def m_tagname(I, st, fr, e, fn, obj, args):
    v = ("ap", "gumbo_normalized_tagname", I.load(args[0], st))
    TYPES.setdefault(v, "const char *")
    st.dom.setdefault(v, (1, None, frozenset((0,)), None))
    return [(v, st)]


@reg("gumbo_get_attribute")
def m_getattr(I, st, fr, e, fn, obj, args):
    v = ("ap", "gumbo_get_attribute", I.load(args[0], st), I.load(args[1], st))
    TYPES.setdefault(v, "GumboAttribute *")
    return [(v, st)]


@reg("gumbo_tag_from_original_text")
def m_tagtext(I, st, fr, e, fn, obj, args):
    p = I.load(args[0], st)
    loc = I.deref(p, st, fr, e)
    d, n = st.load(F(loc, "data"), "const char *"), st.load(F(loc, "length"), "unsigned long")
    I.setv(st, F(loc, "data"), I.typed(("ap", "tagname_data", d, n), "const char *"), "const char *")
    ln = I.typed(("ap", "tagname_len", d, n), "unsigned long")
    st._setdom(ln, lo=0, hi=2 ** 31 - 2)  # part of the document
    I.setv(st, F(loc, "length"), ln, "unsigned long")
    return [(None, st)]


@reg("gumbo_string_equals_ignore_case", "gumbo_string_equals")
def m_ieq(I, st, fr, e, fn, obj, args):
    vs = []
    for a in args:
        loc = I.deref(I.load(a, st), st, fr, e)
        vs.append(("ap", "piece", st.load(F(loc, "data"), "const char *"), st.load(F(loc, "length"), "unsigned long")))
    vs.sort(key=_key)
    t = ("ap", fn["name"], vs[0], vs[1])
    TYPES.setdefault(t, "bool")
    return [(t, st)]


@reg("gumbo_tag_enum")
def m_tagenum(I, st, fr, e, fn, obj, args):
    p = I.load(args[0], st)
    v = ("ap", "gumbo_tag_enum", cstr(p))
    return [(v, st)]


@reg("std::find")
def m_stdfind(I, st, fr, e, fn, obj, args):
    """search through characters: the result lies inside the range"""
    a, b = args[0], args[1]
    if not (a and b and a[0] == "LV" and b[0] == "LV"):
        return None
    if st.load(F(a[1], "$c")) != ("ap", "ptr"):
        return None
    x, y = st.load(F(a[1], "$i")), st.load(F(b[1], "$i"))
    r = I.fresh_ap("std::find", "const char *")
    d = lin_comb(to_lin(y), 1, to_lin(r), -1)
    st.add_rel(d)
    st.add_rel(lin_comb(to_lin(r), 1, to_lin(x), -1))
    loc = ("T", fresh())
    I.setv(st, F(loc, "$c"), ("ap", "ptr"))
    I.setv(st, F(loc, "$i"), r)
    return [(("LV", loc), st)]


@reg("iter.base")
def m_base(I, st, fr, e, fn, obj, args):
    if st.load(F(obj, "$c")) == ("ap", "ptr"):
        return [(st.load(F(obj, "$i")), st)]
    return None
