"""C13 lifetime of a document's text, C29 full length: what the front ends do with texts.

Every pointer into a string is traced back to the object it was taken from.  Ghost variables say whether
documents may be alive ("docs") and whether a text they refer to was changed, moved or destroyed ("stale")."""
import re

from .. import cli, escape, models, spec
from ..bindings import Bindings
from ..dom import *
from ..facts import AnalysisBroken, rel, short, walk
from ..interp import is_lv, root
from . import cmdline
from .cmdline import G, HTMLARG, HTMLVEC, Main, argtypes, guarded

STRING = re.compile(r"^(const )?std::basic_string<")
#: members that change nothing (although not const)
READING = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "crbegin", "crend", "back", "front", "at", "operator[]", "data", "c_str", "size", "length", "empty", "capacity",
           "max_size", "get", "operator*", "operator->", "find", "count"}
GROWING = {"push_back", "emplace_back"}
GROWING_LIST = GROWING | {"push_front", "emplace_front", "insert", "emplace"}
HTML = ("hext::Html::Html", "gumbo_parse_with_options", "gumbo_parse")
TAKING = ("c_str", "data", "operator[]", "at", "front", "begin", "cbegin")


def program():
    return cli.program()


def pattern(l):
    """a location without the positions in containers"""
    if l[0] == "I":
        return ("I", pattern(l[1]), None)
    if l[0] == "F":
        return ("F", pattern(l[1]), l[2])
    if l[0] == "V":
        return ("V", l[1], None, l[3])
    return l


def around(l):
    """l and the objects it is part of"""
    while True:
        yield l
        if l[0] not in ("F", "I"):
            return
        l = l[1]


def plain(t):
    """a number computed from sizes of containers"""
    if t[0] == "i":
        return True
    if t[0] == "rd":
        return t[1][0] == "F" and t[1][2] == "$n"
    if t[0] == "lin":
        return all(plain(x) for x, _ in t[2])
    return t[0] == "op" and all(plain(x) for x in t[2:] if isinstance(x, tuple))


def blocks(body):
    """declared variable -> the blocks around its declaration, outermost first"""
    res = {}

    def go(s, path):
        if isinstance(s, list):
            for x in s:
                go(x, path)
            return
        if not isinstance(s, dict):
            return
        if s.get("k") in ("block", "for", "rangefor", "while", "do", "if", "switch", "try"):
            path = path + (id(s),)
        if s.get("k") == "decl":
            for v in s["vars"]:
                res.setdefault(v["id"], path)
        if s.get("k") == "rangefor" and isinstance(s.get("var"), dict):
            res.setdefault(s["var"].get("id"), path + ("var",))
        for k, v in s.items():
            if isinstance(v, (dict, list)) and k not in ("loc",):
                go(v, path)
    go(body, ())
    return res


class Texts:
    """mixed into a client: where pointers into strings come from"""
    lifetimes = True

    def start(self, known=None):
        self.taken = {}      # pointer term -> location of the string it was last taken from
        self.docs = []       # (text location or None, owner, pointer, length, state, frame, expression, place)
        self.scripts = []
        self.known = known   # patterns of the locations of texts and the owners of documents, from the first run
        self.owners = set()
        self.why = {}        # place -> what makes a text stale
        self.unclear = {}
        self.decls = {}

    def watch(self, I, st, fr, e, fn, obj, args):
        name, rec = I.P.sq(fn), strip_cv(fn.get("record") or "")
        last = name.rsplit("::", 1)[-1]
        if obj is not None and STRING.match(rec) and (last in TAKING or "operator" in last and "string_view" in last):
            self.taken[("ap", "data", models.S(st, obj))] = obj
        if self.known is None or fn.get("inrepo") and fn.get("has_body"):
            return
        if obj is not None and rec.startswith("std::") and not fn.get("const") and last not in READING and not last.startswith("~") and fn.get("kind") not in ("ctor", "dtor"):
            self.changed(I, st, fr, e, fn, obj, last, rec, args)
        if obj is not None and last == "reserve" and rec.startswith("std::vector<"):
            st.store[F(obj, "#cap")] = I.load(args[0], st)
        if last in ("move", "forward", "as_const", "addressof", "move_if_noexcept", "__addressof", "get", "begin", "end", "data", "size", "back_inserter", "ref", "cref"):
            return
        for i, a in enumerate(args):
            if i < len(fn["params"]) and is_lv(a):
                t = fn["params"][i]["t"]
                if is_ref(t) and not t.startswith("const ") and (t.endswith("&&") or fn.get("kind") != "ctor" and last not in GROWING_LIST and not last.startswith("make_")):
                    self.changed(I, st, fr, e, fn, a[1], "%s (%s)" % (last, "moved" if t.endswith("&&") else "passed by reference"), strip_cv(noref(t)), args)

    def changed(self, I, st, fr, e, fn, obj, what, rec, args):
        texts, _ = self.known
        pat = pattern(obj)
        if not any(pat == x for t in texts for x in around(t)):
            return
        if self.is_zero(st, "docs") is True:
            return
        if "I" in [x[0] for x in around(obj)] and pat in texts or pat not in [x for t in texts for x in around(t)]:
            # an element: this very text?
            if st.store.get(F(obj, "#doc")) != I1:
                return
        if what in GROWING_LIST and re.match(r"std::(__cxx11::)?(list|forward_list|map|set|multimap|unordered_map|unordered_set)<", rec):
            return
        if what in GROWING_LIST and rec.startswith("std::deque<") and what not in ("insert", "emplace"):
            return
        if what in GROWING and rec.startswith("std::vector<"):
            cap = st.store.get(F(obj, "#cap"))
            if cap is not None:
                size = st.load(F(obj, "$n"), "unsigned long")
                if st.lt(size, cap):
                    return
                if not all(plain(t) for t, _ in to_lin(cap)[1]):
                    self.unclear[self.spot(fr, e)] = "whether %s is large enough" % show(cap)
                    return
        if what == "reserve" and any(l[0] == "F" and l[2] == "#cap" and l[1] == obj for l in st.store) and st.le(I.load(args[0], st), st.store[F(obj, "#cap")]):
            return
        self.stale(I, st, self.spot(fr, e), "%s: %s of %s" % (self.spot(fr, e), what, show(obj)))

    def stale(self, I, st, where, msg):
        self.put(I, st, "stale", 1)
        if I.silent:
            return
        self.why.setdefault(where, msg)

    def spot(self, fr, e):
        return "%s:%s %s" % (rel(fr.fn["loc"].rsplit(":", 2)[0] + ":0:0").split(":")[0], str((e or {}).get("l") or "").split(":")[0], short(fr.fn["qn"]))

    def document(self, I, st, fr, e, ptr, length, owner):
        ptr = I.load(ptr, st) if is_lv(ptr) else ptr
        length = I.load(length, st) if is_lv(length) else length
        loc = self.taken.get(ptr)
        if loc is not None:
            st.store[F(loc, "#doc")] = I1
        if I.silent:
            return
        self.docs.append((loc, owner, ptr, length, st.copy(), fr, e, self.spot(fr, e)))
        if owner is not None:
            self.owners.add(root(owner))


class CliTexts(Texts, cmdline.CliClient):
    def __init__(self, P, E, known=None):
        super().__init__(P, E)
        self.start(known)
        self.used = {}
        self.shortened = {}

    def is_zero(self, st, n):
        return self.zero(st, n)

    def call(self, I, st, fr, e, fn, obj, args):
        if fn is not None:
            self.watch(I, st, fr, e, fn, obj, args)
            self.shortens(I, st, fr, e, fn, args)
            rec = strip_cv(fn.get("record") or "")
            if HTMLVEC.search(rec) and not fn.get("const") and obj is not None:
                if fn["name"] in ("push_back", "emplace_back", "insert", "emplace", "push_front", "emplace_front"):
                    self.put(I, st, "docs", 2)
                    self.owners.add(root(obj))
                if fn["name"] == "clear":
                    self.put(I, st, "docs", 0)
        return super().call(I, st, fr, e, fn, obj, args)

    def shortens(self, I, st, fr, e, fn, args):
        """a captured text is passed on as C string"""
        if I.silent or fn.get("inrepo") and fn.get("has_body"):
            return
        for i, a in enumerate(args):
            if (i >= len(fn["params"]) or re.match(r"^(const )?char \*( ?const)?$", noref(fn["params"][i]["t"]))) and a is not None and not is_lv(a) and op(a) == "data":
                where = self.spot(fr, e)
                if captured(a[2]):
                    n = fn["params"][i + 1]["t"] if i + 1 < len(fn["params"]) else ""
                    if not INTS.get(n) and n not in TYPES:
                        self.shortened[where] = "a captured name or value is passed to %s as a C string" % short(fn["qn"])

    def step(self, I, st, fr, e, what, args, fn, obj=None):
        super().step(I, st, fr, e, what, args, fn, obj)
        if what == "html":
            container = fn["name"] in ("emplace_back", "emplace", "emplace_front")
            two = container or self.zero(st, "docs") is not True
            n = [a for a in args if a is not None]
            if len(n) >= 2:
                self.document(I, st, fr, e, n[0], n[1], obj)
            elif len(n) == 1:
                self.document(I, st, fr, e, n[0], ("ap", "strlen", I.load(n[0], st) if is_lv(n[0]) else n[0]), obj)
            self.put(I, st, "docs", 2 if two else 1)
        if what == "script" and not I.silent:
            a = [I.load(x, st) if is_lv(x) else x for x in args[:2]]
            self.scripts.append((a[0], a[1] if len(a) > 1 else ("ap", "strlen", a[0]), st.copy(), self.spot(fr, e)))
        if what == "extract" and self.known is not None and not I.silent:
            self.used.setdefault(self.spot(fr, e), []).append(self.zero(st, "stale") is True)

    def died(self, I, st, fr, vars):
        for v in vars:
            t = strip_cv(v.get("t") or "")
            if v.get("ref") or is_ref(v.get("t") or ""):
                continue
            if HTMLVEC.search(t) and not t.endswith("*"):
                self.put(I, st, "docs", 0)
            elif HTMLARG.match(t) and st.decide(mk_eq(self.get(st, "docs"), I1)) is True:
                self.put(I, st, "docs", 0)
        if self.known is None:
            return
        for v in vars:
            l = ("V", v["id"], fr.num, v["name"])
            if v.get("ref") or is_ref(v.get("t") or ""):
                l = st.refs.get((v["id"], fr.num))
                if l is None or root(l)[0] != "T":
                    continue
                l = root(l)
            self.dies(I, st, fr.fn, l, v["id"], fr.num, "%s:%s %s" % (rel(fr.fn["loc"].rsplit(":", 2)[0] + ":0:0").split(":")[0], str(v.get("l") or "").split(":")[0], short(fr.fn["qn"])), v["name"])

    def left(self, I, st, fn, num):
        if self.known is None:
            return
        for p in fn["params"]:
            if not is_ref(p["t"]):
                self.dies(I, st, fn, ("V", p["id"], num, p["name"]), p["id"], num, "%s %s" % (rel(fn["loc"]).rsplit(":", 1)[0], short(fn["qn"])), p["name"])

    def dies(self, I, st, fn, l, vid, num, where, name):
        texts, owners = self.known
        if not any(root(t) == pattern(l) for t in texts) or self.zero(st, "docs") is True:
            return
        mine = self.declared_in(fn).get(vid, ())
        for o in owners:
            if o[0] == "T":
                continue
            if o[0] == "V":
                theirs = self.declared_in(fn).get(o[1])
                if theirs is not None:
                    # the owner is declared in the same block or inside: it dies first
                    if theirs[:len(mine)] == mine:
                        continue
                elif not any(o[1] in self.declared_in(g) and fn["id"] in reaches(I.P, g) for g in I.P.fn.values() if g.get("inrepo") and g.get("has_body")):
                    continue
            self.stale(I, st, where, "%s: %s is destroyed" % (where, name))

    def declared_in(self, fn):
        if fn["id"] not in self.decls:
            self.decls[fn["id"]] = blocks(fn["body"])
        return self.decls[fn["id"]]


def reaches(P, f):
    todo, seen = [f["id"]], set()
    while todo:
        k = todo.pop()
        if k in seen or k not in P.fn:
            continue
        seen.add(k)
        todo += [n["fn"] for n in walk(P.fn[k].get("body")) if n.get("fn")]
    return seen - {f["id"]}


def cli_lifetime(R, P):
    E = escape.Escapes(P)
    first = CliTexts(P, E)
    Main(P, first, ("docs", "stale"))
    texts = {pattern(d[0]) for d in first.docs if d[0] is not None}
    c = CliTexts(P, E, (texts, {pattern(o) for o in first.owners}))
    M = Main(P, c, ("docs", "stale"))
    R.fn(M.f)
    for fid in c.seen:
        R.fn(P.fn[fid])
    if not c.docs:
        R.skip("htmlext", "no place where a document is made was recognised")
    for loc, owner, ptr, length, st, fr, e, where in c.docs:
        if loc is None:
            if op(ptr) == "data" or ptr[0] != "str":
                R.skip(where, "the text is not in a string: %s" % show(ptr)[:80])
            else:
                R.ok("text stored", where)
            continue
        r = root(loc)
        held = r[0] != "T" or any(root(x) == r for x in st.refs.values())
        lives = owner is None or root(owner)[0] != "T"
        if not held and not lives:
            R.ok("text stored", where)
            continue
        R.check("text stored", held, where, "%s: the document refers to %s, which is destroyed at the end of the expression" % (where, show(loc)), key="temporary:%s" % where)
    for where, oks in sorted(c.used.items()):
        reasons = "; ".join(sorted(c.why.values()))
        R.check("kept while used", all(oks), where, "%s: a document is used although the text it refers to may have been changed, moved or destroyed (%s)" % (where, reasons), key="stale:%s:%s" % (where, reasons))
    for where, msg in sorted(c.unclear.items()):
        R.skip(where, msg)
    return c


class MemberTexts(Texts, spec.SpecClient):
    """functions of the bindings that make documents or rules"""

    def __init__(self, P, known=None):
        super().__init__(P)
        self.start(known)
        self.spoiled = []

    def is_zero(self, st, n):
        return False

    def put(self, I, st, n, v):
        pass

    def stale(self, I, st, where, msg):
        if not I.silent:
            self.spoiled.append((where, msg))

    def inline(self, I, fn, fr):
        return not I.P.sq(fn).startswith("hext::") and super().inline(I, fn, fr)

    def call(self, I, st, fr, e, fn, obj, args):
        if fn is None:
            return None
        self.watch(I, st, fr, e, fn, obj, args)
        name = I.P.sq(fn)
        inner = fr.fn["name"] in MAKERS
        if not inner and (name in HTML and not (fn.get("movector") or fn.get("copyctor") or fn.get("kind") == "dtor") or fn["name"] in MAKERS and makes_html(fn)):
            a = [x for x, p in zip(args, fn["params"]) if "Gumbo" not in p["t"]]
            if a:
                p = I.load(a[0], st) if is_lv(a[0]) else a[0]
                self.document(I, st, fr, e, p, a[1] if len(a) > 1 else ("ap", "strlen", p), obj)
                I.event(st, "document", len(self.docs))
        if name == "hext::ParseHext" and not I.silent:
            a = [I.load(x, st) if is_lv(x) else x for x in args[:2]]
            self.scripts.append((a[0], a[1] if len(a) > 1 else ("ap", "strlen", a[0]), st.copy(), self.spot(fr, e)))
        return None

    def changed(self, I, st, fr, e, fn, obj, what, rec, args):
        if any(st.store.get(F(l, "#doc")) == I1 for l in around(obj)):
            self.stale(I, st, self.spot(fr, e), "%s: %s of %s" % (self.spot(fr, e), what, show(obj)))


MAKERS = ("make_unique", "make_shared", "emplace", "emplace_back")


def makes_html(fn):
    return any(HTMLARG.match(str(x)) for x in fn.get("targs") or []) or HTMLVEC.search(fn.get("record") or "")


def uses(P, f, names):
    for n in [*walk(f.get("body")), *walk(f.get("inits"))]:
        if n.get("k") in ("call", "construct") and n.get("fn") in P.fn:
            g = P.fn[n["fn"]]
            if P.sq(g) in names or "hext::Html::Html" in names and g["name"] in MAKERS and makes_html(g):
                return True
    return False


def makers(B, lang, names):
    P = B.programs[lang]
    return [f for f in P.fn.values() if f.get("has_body") and ("/bindings/" in f["loc"] or f["id"] in B.glue[lang]) and P.sq(f) not in names and uses(P, f, names)]


def wrappers(B):
    """the classes' own functions are the same in all languages that use the wrapper classes"""
    seen = set()
    for lang, P in B.programs.items():
        for f in makers(B, lang, HTML):
            k = (f["loc"], f["qn"])
            if k not in seen:
                seen.add(k)
                yield lang, P, f


def owner_kind(f, owner, X):
    """member (lives as long as the object), local or None"""
    if owner is None:
        return "member" if f.get("record") else None
    r = root(owner)
    if r[0] == "P":
        return "member"
    if r[0] in ("V", "T"):
        return "local"
    return None


def bindings_lifetime(R, B):
    done = 0
    for lang, P, f in wrappers(B):
        R.fn(f)
        c = MemberTexts(P, ((), ()))
        X = spec.Exec(P, f, client=c)
        me = short(f["qn"])
        texts = {}
        for loc, owner, ptr, length, st, fr, e, where in c.docs:
            done += 1
            kind = owner_kind(f, owner, X)
            rec = strip_cv(f.get("record") or "")
            if kind == "local" and root(owner)[0] == "T" and any("hext::Html" in x["t"] for x in P.records.get(rec, {}).get("fields", ())):
                kind = "member"
            if kind is None:
                R.skip(where, "who owns the document is not known")
                continue
            if loc is None:
                if ptr[0] == "str":
                    R.ok("text stored", where)
                elif ptr[0] == "rd" and root(ptr[1])[0] == "V" or ptr[0] == "var":
                    R.check("text stored", kind != "member", where, "%s: the document refers to memory of the caller" % where, key="caller:%s" % where)
                else:
                    R.skip(where, "the text is not in a string: %s" % show(ptr)[:80])
                continue
            r = root(loc)
            if kind == "local":
                R.check("text stored", r[0] != "T" or root(owner)[0] == "T" or any(root(x) == r for x in st.refs.values()), where,
                        "%s: the document refers to %s, which is destroyed at the end of the expression" % (where, show(loc)), key="temporary:%s" % where)
                continue
            ok = loc[0] == "F" and r[0] == "P" and (owner is None or root(owner)[0] != "P" or root(owner) == r)
            R.check("text stored", ok, where, "%s: the document refers to %s, which does not live as long as the object" % (where, show(loc)), key="foreign:%s" % where)
            if ok:
                texts[loc] = where
                for p in X.paths:
                    if any(t[0] == "document" for t in p.trace):
                        same = models.S(p.st, loc) == models.S(st, loc)
                        R.check("unchanged", same, where, "%s: %s changes after the document was made" % (where, show(loc)), key="changed:%s" % where)
        for where, msg in c.spoiled:
            R.violation("unchanged", where, "%s after a document was made from it" % msg, key="spoiled:%s" % where)
        for loc, where in texts.items():
            others(R, B, lang, P, f, loc)
    return done


def others(R, B, lang, P, f, loc):
    """no other member function changes the text; objects are not copied or moved"""
    base = f.get("record")
    rec = strip_cv(base or "")
    for g in P.fn.values():
        if g.get("record") != base or g["id"] == f["id"] or not g.get("has_body") or g.get("implicit") or g.get("kind") in ("ctor", "dtor") or g.get("static") or "/bindings/" not in g["loc"]:
            continue
        if uses(P, g, HTML):
            continue
        c = MemberTexts(P, ((), ()))

        def setup(X, I, st):
            st.store[F(loc, "#doc")] = I1
        try:
            X = spec.Exec(P, g, setup=setup, client=c)
        except AnalysisBroken as ex:
            R.skip(short(g["qn"]), str(ex)[:100])
            continue
        bad = bool(c.spoiled) or any(models.S(p.st, loc) != models.S(X.entry, loc) for p in X.paths)
        R.check("unchanged", not bad, short(g["qn"]), "%s changes %s while a document made from it exists" % (short(g["qn"]), show(loc)), key="member:%s" % g["qn"])
    moved = {g["id"] for g in P.fn.values() if g.get("record") == base and (g.get("movector") or g.get("copyctor") or g["name"] == "operator=") and not g.get("deleted")}
    n = 0
    for g in P.fn.values():
        if not g.get("has_body") or g["id"] in moved:
            continue
        for x in [*walk(g.get("body")), *walk(g.get("inits"))]:
            if x.get("fn") in moved:
                R.violation("unchanged", "%s %s" % (lang, short(g["qn"])), "%s copies or moves a %s: its document refers to the text of the original object" % (short(g["qn"]), short(rec)), key="moved:%s" % g["qn"])
                n += 1
    if not n:
        R.ok("unchanged", "%s is not copied or moved (%s)" % (short(rec), lang))


@guarded
def c13(R, B=None):
    R.rule("text stored", "every document is made from a string that lives at least as long as the document", minimum=1)
    R.rule("kept while used", "no path of the command line tool uses a document after a string it may refer to was changed, moved, reallocated or destroyed", minimum=0)
    R.rule("unchanged", "in the bindings the string is a member of the object that owns the document and nothing changes it", minimum=0)
    cli_lifetime(R, program())
    B = Bindings(lib=False) if B is None else B
    for n in B.notes:
        R.skip("binding", n)
    if not bindings_lifetime(R, B):
        R.skip("bindings", "no place where a document is made was recognised")
    return R.finish("other", "abstract interpretation of main and of the functions of the bindings that make documents: every pointer into a string is traced to the object it belongs to; "
                    "ghost state says whether documents may be alive and whether their text is still what and where it was", TRUST)


TRUST = ["std::vector does not reallocate while its size stays below a reserved capacity", "gumbo's parser keeps pointers into the text it was given and nothing else"]


def full(R, ptr, length, st, where, what):
    if ptr is None:
        R.skip(where, "text of the %s not found" % what)
        return
    if op(length) == "strlen" and not (ptr[0] == "str"):
        R.violation("scripts and documents", where, "%s: the length of the %s is found by searching for NUL" % (where, what), key="strlen:%s" % where)
        return
    if ptr[0] == "str":
        R.ok("scripts and documents", where)
        return
    if op(ptr) != "data":
        R.skip(where, "the %s is not in a string: %s" % (what, show(ptr)[:80]))
        return
    s = ptr[2]
    if short_text(s):
        R.violation("scripts and documents", where, "%s: the %s is copied from a C string" % (where, what), key="cstr:%s" % where)
        return
    n = models.strsize(s)
    if length == n or st.decide(mk_eq(length, n)) is True or cmdline.equal(st, length, n):
        R.ok("scripts and documents", where)
    elif st.decide(mk_eq(length, n)) is False or mentions(length, "strlen") or not mentions_any(length, ("phi", "op")):
        R.violation("scripts and documents", where, "%s: the length passed with the %s is %s" % (where, what, show(length)[:80]), key="length:%s" % where)
    else:
        R.skip(where, "length of the %s: %s" % (what, show(length)[:80]))


def mentions_any(t, names):
    return any(x in names for x in heads(t))


def heads(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t[0]
            if t[0] == "ap" and len(t) > 1:
                yield t[1]
        for x in t:
            yield from heads(x)


def captured(s):
    """(part of) a name or value in a result"""
    if isinstance(s, tuple):
        if len(s) == 3 and s[0] == "F" and s[2] in ("first", "second"):
            return True
        return any(captured(x) for x in s)
    return False


def short_text(s):
    """made from a C string that is no literal"""
    if isinstance(s, tuple):
        if s[:2] == ("ap", "cstr"):
            return s[2][0] != "str"
        return any(short_text(x) for x in s)
    return False


@guarded
def c29(R, B=None):
    from . import convert
    R.rule("scripts and documents", "every script and every document is handed to the parser with its pointer and its full length, and is not copied from a C string on the way", minimum=2)
    R.rule("names and values", "every captured name and value is converted with its length", minimum=1)
    P = program()
    c = CliTexts(P, escape.Escapes(P))
    M = Main(P, c, ("docs", "stale"))
    R.fn(M.f)
    for fid in c.seen:
        R.fn(P.fn[fid])
    for d in c.docs:
        full(R, d[2], d[3], d[4], d[7], "document")
    for p, n, st, where in c.scripts:
        full(R, p, n, st, where, "script")
    for where, msg in sorted(c.shortened.items()):
        R.violation("names and values", where, "%s: %s" % (where, msg), key="out:%s" % where)
    fs = [f for f in P.byqn("htmlext::PrintJson") if f.get("has_body")]
    for f in fs:
        R.fn(f)
        values(R, P, f, convert.JsonBuilder(P), lambda g, l: "%s:%s %s" % (rel(g["loc"]).split(":")[0], l, short(g["qn"])))
    B = Bindings(lib=False) if B is None else B
    for n in B.notes:
        R.skip("binding", n)
    from .glue import RAISE
    seen = set()
    for lang, Q in B.programs.items():
        for f in makers(B, lang, HTML + ("hext::ParseHext",)):
            if (f["loc"], f["qn"]) in seen:
                continue
            seen.add((f["loc"], f["qn"]))
            R.fn(f)
            m = MemberTexts(Q)
            spec.Exec(Q, f, client=m)
            for d in m.docs:
                full(R, d[2], d[3], d[4], d[7], "document")
            for p, n, st, where in m.scripts:
                full(R, p, n, st, where, "script")
        for f in [Q.fn[g] for g in sorted(B.glue[lang])]:
            if convert.direct_extract(Q, f):
                R.fn(f)
                values(R, Q, f, convert.BUILDERS[lang](Q, B.glue[lang], RAISE[lang]), lambda g, l: B.where(lang, g, l))
    return R.finish("other", "abstract interpretation of main, the wrapper classes and the conversion functions of all languages: pointer and length of every text are compared as terms", TRUST[:0])


def values(R, P, f, c, where):
    try:
        spec.Exec(P, f, client=c)
    except AnalysisBroken as ex:
        R.skip(short(f["qn"]), str(ex)[:200])
        return
    for g, l, s in c.cut:
        if not captured(s):
            continue
        R.violation("names and values", where(g, l), "%s: a captured name or value ends at the first NUL byte" % where(g, l), key="cut:%s" % where(g, l))
    for g, l, s in c.whole:
        if not captured(s):
            continue
        R.ok("names and values", where(g, l))


#: types that hold every limit
BROAD = re.compile(r"^(const )?(unsigned )?(long|long long|long int|__int64|__int128|double|long double)( int)?$|^(const )?(std::)?u?int64_t$|^(const )?(std::)?size_t$")


def narrowed(t):
    """the type a limit is squeezed through, or what else is done to it"""
    if not isinstance(t, tuple):
        return None
    if t[0] == "op" and isinstance(t[1], str):
        if t[1].startswith("conv:") and not BROAD.match(t[1][5:]):
            return "converted to %s" % t[1][5:]
        if not t[1].startswith("conv:"):
            return None if t[1] in ("==", "!=", "<") else "changed by %s" % t[1]
        return narrowed(t[2])
    if t[0] == "lin":
        return "changed by arithmetic"
    if t[0] in ("rd", "ap", "phi") and t in TYPES and INTS.get(TYPES[t]) and not BROAD.match(TYPES[t]):
        return "only a %s" % TYPES[t]
    return None


def limits(R, B):
    """rule 'limit passed unchanged' of C07 for the bindings"""
    from . import convert
    from .glue import RAISE
    for n in B.notes:
        R.skip("binding", n)
    seen = set()
    for lang, P in B.programs.items():
        for f in P.fn.values():
            if f["id"] in B.glue[lang] or not f.get("has_body") or "/bindings/" not in f["loc"] or not uses(P, f, ("hext::Rule::extract",)) or f["loc"] in seen:
                continue
            seen.add(f["loc"])
            R.fn(f)
            wide = [i for i, q in enumerate(f["params"]) if INTS.get(strip_cv(q["t"]))]
            if len(wide) != 1:
                R.skip(short(f["qn"]), "the parameter carrying the limit is not evident")
                continue
            R.check("full width", bool(BROAD.match(f["params"][wide[0]]["t"])), "%s %s" % (rel(f["loc"]), short(f["qn"])), "takes the limit as %s" % f["params"][wide[0]]["t"])
            X = spec.Exec(P, f, client=MemberTexts(P))
            for p in X.paths:
                for e in p.calls("hext::Rule::extract"):
                    a = e[4][-1] if len(e[4]) > 1 else None
                    R.check("limit passed unchanged", a == X.params[wide[0]], "%s:%s %s" % (rel(f["loc"]).split(":")[0], str(e[6][1]).split(":")[0], short(f["qn"])), "passes %s" % (show(a) if a is not None else "no limit"))
        given = {}
        fs = [P.fn[g] for g in sorted(B.glue[lang]) if convert.direct_extract(P, P.fn[g])]
        for f in fs:
            R.fn(f)
            try:
                X = spec.Exec(P, f, client=convert.BUILDERS[lang](P, B.glue[lang], RAISE[lang]))
            except AnalysisBroken as ex:
                R.skip("%s: %s" % (lang, f["name"]), str(ex)[:200])
                given[None] = f
                continue
            for p in X.paths:
                for e in p.trace:
                    if e[0] == "call" and e[1].split("<")[0] in ("Rule::extract", "hext::Rule::extract"):
                        t = e[4][-1]
                        if len(e[4]) < 2 or t is None or is_lv(t):
                            R.skip("%s: %s" % (lang, f["name"]), "limit not found")
                            given[None] = f
                            continue
                        given[t] = (f, e[6][1])
        for t, where in given.items():
            if t is None:
                continue
            w = B.where(lang, where[0], str(where[1]).split(":")[0])
            if t[0] == "i":
                R.check("limit passed unchanged", t[1] == 0, "%s: no limit given: %s" % (lang, w), "%s: %s is passed where no limit was given" % (lang, t[1]), key="%s:default" % lang)
            else:
                why = narrowed(t)
                R.check("limit passed unchanged", why is None, "%s: %s" % (lang, w), "%s: the limit is %s" % (lang, why), key="%s:narrow:%s" % (lang, why))
        if given and all(t is not None and t[0] == "i" for t in given):
            R.violation("limit passed unchanged", lang, "%s: no call of extract passes on a limit" % lang, key="%s:none" % lang)


def op(t):
    return t[1] if t and t[0] == "ap" else None
