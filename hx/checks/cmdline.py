"""C21 exit status, C22 output order, C23 options: the command line tool's main() on all abstract paths."""
import os
import re
from fractions import Fraction

from .. import cli, escape, facts, models, spec
from ..dom import *
from ..facts import AnalysisBroken, rel, short, walk
from ..interp import is_lv

G = ("P", ("ap", "ghost"))
G_PREFIX = ("F", G)
#: options that choose what the tool does
MODES = ("help", "version", "lint", "html")
STD = {("G", "c:@N@std@cout"): "out", ("G", "c:@N@std@cerr"): "err", ("G", "c:@N@std@clog"): "err"}
CSTD = {"c:@stdout": "out", "c:@stderr": "err"}
#: members of a stream that write nothing
QUIET = {"flags", "width", "precision", "setf", "unsetf", "imbue", "tie", "fill", "clear", "setstate", "getloc", "copyfmt", "tellp", "seekp",
         "sync_with_stdio", "sync", "xalloc", "iword", "rdstate"}
TESTS = {"operator bool": 1, "operator!": 0, "fail": 0, "bad": 0, "good": 1}
ANCHORED = spec.ANCHORS | {"htmlext::ReadFileOrThrow", "htmlext::PrintJson", "htmlext::PrintJsonValue"}
HTMLARG = re.compile(r"(const )?hext::Html$")
HTMLVEC = re.compile(r"(vector|deque|list|optional)<hext::Html\b")
ENDS = {"exit", "_exit", "_Exit", "quick_exit", "std::exit", "std::_Exit", "std::quick_exit"}


#: how often something was done
COUNTS = ("nscripts", "nhtml", "nextracts")


def program():
    return cli.program()


def argtypes(e):
    return [a.get("t") or "" for a in (e or {}).get("args") or []]


def equal(st, a, b):
    """a == b follows from the equations st knows"""
    goal = lin_comb(to_lin(a), 1, to_lin(b), -1)
    if not goal[1]:
        return goal[0] == 0
    rels = set(st.rels)
    rows = []
    for c, ts in rels:
        if (-c, tuple((t, -k) for t, k in ts)) in rels:
            rows.append((Fraction(c), {t: Fraction(k) for t, k in ts}))
    for t in {t for _, ts in rels for t, _ in ts} | {t for t, _ in goal[1]}:
        v = spec.fixed(st, t)
        if v is not None:
            rows.append((Fraction(-v), {t: Fraction(1)}))
    g = (Fraction(goal[0]), {t: Fraction(k) for t, k in goal[1]})
    while rows:
        c, ts = rows.pop()
        if not ts:
            continue
        p = min(ts, key=repr)

        def without(r):
            if p not in r[1]:
                return r
            f = r[1][p] / ts[p]
            d = {t: r[1].get(t, 0) - f * ts.get(t, 0) for t in set(r[1]) | set(ts)}
            return (r[0] - f * c, {t: k for t, k in d.items() if k})
        g = without(g)
        rows = [without(r) for r in rows]
    return not g[1] and g[0] == 0


class CliClient(spec.SpecClient):
    throwing = True
    traces = False
    merging = True
    relate = True
    apart = 0

    def __init__(self, P, E):
        super().__init__(P, ANCHORED)
        self.E = E
        self.said = {}        # (rule, place) -> message
        self.count = {}       # rule -> set of places where it was decided
        self.asked = {}       # option key -> list of (kind, type, place, given?)
        self.declared = {}
        self.defaults = set()
        self.events = []
        self.types = []
        self.counted = set()
        self.filtered = set()

    # ------------------------------------------------------------ paths that meet
    def merge(self, I, sts):
        """paths stay apart while they differ in what was done so far, in flags and in the options that choose what the tool does"""
        for s in sts:
            if self.zero(s, "unprinted") is not True and s.decide(mk_eq(self.given("filter"), I0)) is False:
                # with the filter option there may be nothing to print
                self.put(I, s, "unprinted", 0)
        if len(sts) < 2:
            return sts
        groups = {}
        for s in sts:
            known = tuple(s.decide(mk_eq(self.given(k), I0)) for k in sorted(self.declared) if k in MODES)
            flags = frozenset((l, v) for l, v in s.store.items() if l[:2] == G_PREFIX and l[2] not in COUNTS or l[0] == "V" and INTS.get(I.LT.get(l) or ""))
            groups.setdefault((frozenset(s.refs.items()), known, flags), []).append(s)
        out = []
        for g in groups.values():
            a = g[0]
            for b in g[1:]:
                if a.store != b.store or a.alias != b.alias or a.dom != b.dom or a.rels != b.rels:
                    a = I.blur(a, b)
            out.append(a)
        return out

    def related(self, l1, t1, l2, t2):
        """flags of the program are compared with what happened, numbers with each other"""
        g1, g2 = l1[:2] == G_PREFIX, l2[:2] == G_PREFIX
        if g1 and g2:
            return False
        if g1 or g2:
            n, t = (l1[2], t2) if g1 else (l2[2], t1)
            return t != "bool" if n in COUNTS else n in ("caught", "failed", "told") and t in ("bool", "int")
        return t1 != "bool" and t2 != "bool"

    # ------------------------------------------------------------ ghosts
    def get(self, st, n):
        return st.load(F(G, n), "int")

    def put(self, I, st, n, v):
        I.LT[F(G, n)] = "int"
        st.store[F(G, n)] = ("i", v)

    def bump(self, I, st, n):
        self.counted.add(n)
        st.store[F(G, n)] = add(st.load(F(G, n), "unsigned long"), I1)

    def is0(self, st, n):
        return self.zero(st, n) is True

    def zero(self, st, n):
        """True / False / None"""
        t = self.get(st, n)
        d = st.decide(mk_eq(t, I0))
        if d is None and st.le(t, I0) and st.le(I0, t):
            return True
        if d is None and st.lt(I0, t):
            return False
        return d

    def place(self, fr, e):
        return "%s:%s %s" % (rel(fr.fn["loc"].rsplit(":", 2)[0] + ":0:0").split(":")[0], (e or {}).get("l"), short(fr.fn["qn"]))

    def decide(self, I, rule, ok, where, msg):
        if I.silent:
            return
        self.count.setdefault(rule, set()).add(where)
        if not ok:
            self.said.setdefault((rule, where), msg)

    # ------------------------------------------------------------ exceptions
    def may_throw(self, I, fn, e):
        if fn.get("noexcept"):
            return ()
        f = I.P.fn.get(fn["id"], fn)
        if f["id"] in self.E.bodies:
            return [t for t in sorted(self.E.esc[f["id"]]) if t != escape.MEMORY]
        if f.get("inrepo"):
            return ()
        if f.get("linkage_c"):
            return ()
        return sorted(escape.external(I.P.sq(f), f, e))

    def catches(self, I, exc, h):
        if exc[0] == "noreturn":
            return False
        t = exc[1] if exc[0] == "type" else escape.ANY
        if self.E.catches(h, t):
            return True
        return None if t != escape.ANY and h.get("t") and self.E.isa(h["t"], t) else False

    def caught(self, I, st, fr, h, exc):
        t = exc[1] if exc[0] == "type" else escape.ANY
        if t not in self.types:
            self.types.append(t)
        self.put(I, st, "type", 1 + self.types.index(t))
        self.put(I, st, "caught", 1)
        self.put(I, st, "told", 0)

    # ------------------------------------------------------------ streams
    def stream(self, I, st, v):
        loc = v[1] if v is not None and v[0] in ("LV", "addr") else None
        if loc in STD:
            return STD[loc], loc
        if v is not None and v[0] == "rd" and v[1][0] == "G":
            return CSTD.get(v[1][1]), None
        if loc is not None and loc[0] == "G":
            return CSTD.get(loc[1]), None
        return None, None

    def wrote(self, I, st, fr, e, which):
        if which == "out":
            self.decide(I, "diagnostics", self.is0(st, "caught"), self.place(fr, e), "written to standard output while reporting an error")
            self.put(I, st, "dirty", 1)
            self.put(I, st, "unprinted", 0)
            self.put(I, st, "printed", 1)
            self.put(I, st, "flushed", 0)
        elif which == "err":
            self.put(I, st, "told", 1)

    def fork(self, I, st, ok_value):
        """result of testing standard output: [(value, state)]"""
        a, b = st, st.copy()
        if st.decide(mk_eq(self.get(st, "flushed"), I0)) is False or st.decide(mk_eq(self.get(st, "flushed"), I1)) is True:
            self.put(I, a, "dirty", 0)
        self.put(I, b, "failed", 1)
        return [(("i", ok_value), a), (("i", 1 - ok_value), b)]

    def call(self, I, st, fr, e, fn, obj, args):
        if fn is None:
            return None
        name, rec = I.P.sq(fn), fn.get("record") or ""
        last = name.rsplit("::", 1)[-1]
        r = self.options(I, st, fr, e, fn, name, last, obj, args)
        if r is not None:
            return r
        if name == "hext::ParseHext":
            self.step(I, st, fr, e, "script", args, fn)
            return None
        if name in ("htmlext::ReadFileOrThrow", "std::basic_ifstream::basic_ifstream", "std::basic_ifstream::open", "std::basic_fstream::basic_fstream",
                    "fopen", "open"):
            if "ReadFileOrThrow" not in short(fr.fn["qn"]):
                self.step(I, st, fr, e, "file", args, fn)
            return None
        if name == "hext::Html::Html" and not (fn.get("movector") or fn.get("copyctor") or fn.get("kind") == "dtor"):
            self.step(I, st, fr, e, "html", args, fn, obj)
            return None
        if last in ("emplace_back", "emplace", "emplace_front") and HTMLVEC.search(rec) or name in ("std::make_unique", "std::make_shared") and HTMLARG.match((fn.get("targs") or [""])[0] or ""):
            if not any(HTMLARG.match(strip_cv(noref(t))) for t in argtypes(e)):
                self.step(I, st, fr, e, "html", args, fn, obj)
            return None
        if name == "hext::Rule::extract":
            self.step(I, st, fr, e, "extract", args, fn, obj)
            return None
        if fn.get("inrepo") and fn.get("has_body") and self.inline(I, fn, fr):
            return None
        # standard streams
        which, loc = self.stream(I, st, ("LV", obj)) if obj is not None else (None, None)
        if which and loc is not None:
            if last in TESTS and not args:
                if which == "out":
                    return self.fork(I, st, TESTS[last])
                return None
            if last == "flush":
                if which == "out":
                    self.put(I, st, "flushed", 1)
                    self.checked_by_exception(I, st)
                return [(("LV", loc), st)]
            if last == "exceptions" and args:
                if args[0] is not None and args[0][0] == "i" and args[0][1]:
                    self.put(I, st, "throws", 1)
                return [(None, st)]
            if last in QUIET or not last.startswith("operator<<") and fn.get("const"):
                return None
            if args and args[0] is not None and args[0][0] == "fn":
                m = I.P.fn.get(args[0][1])
                nm = short(m["qn"]) if m else ""
                if nm.endswith("::flush") or nm.endswith("::endl"):
                    if nm.endswith("::endl"):
                        self.wrote(I, st, fr, e, which)
                    if which == "out":
                        self.put(I, st, "flushed", 1)
                        self.checked_by_exception(I, st)
                    return [(("LV", loc), st)]
            self.value(I, st, fr, e, args)
            self.wrote(I, st, fr, e, which)
            if is_ref(fn["ret"]) and "stream" in fn["ret"]:
                return [(("LV", loc), st)]
            return None
        seen = None
        for i, a in enumerate(args):
            w, l = self.stream(I, st, a)
            if w and i < len(fn["params"]) and not I.const_param(fn["params"][i]["t"]):
                if name in ("fflush", "ferror", "fileno", "std::fflush", "std::ferror", "setvbuf", "std::setvbuf"):
                    if w == "out" and "fflush" in name:
                        self.put(I, st, "flushed", 1)
                        return self.fork(I, st, 0)
                    if w == "out" and "ferror" in name:
                        return self.fork(I, st, 0)
                    return None
                if last in ("flush", "endl"):
                    if w == "out":
                        if last == "endl":
                            self.wrote(I, st, fr, e, w)
                        self.put(I, st, "flushed", 1)
                        self.checked_by_exception(I, st)
                    return [(a, st)]
                self.value(I, st, fr, e, args)
                self.wrote(I, st, fr, e, w)
                seen = (a, i)
        if name in ("printf", "puts", "putchar", "std::printf", "std::puts", "std::putchar", "vprintf"):
            self.wrote(I, st, fr, e, "out")
        if name in ("perror", "std::perror"):
            self.wrote(I, st, fr, e, "err")
        if name == "write" and args and args[0] in (("i", 1), ("i", 2)):
            self.wrote(I, st, fr, e, "out" if args[0] == ("i", 1) else "err")
        if seen and seen[1] == 0 and is_ref(fn["ret"]) and "stream" in fn["ret"]:
            return [(seen[0], st)]
        return None

    def value(self, I, st, fr, e, args):
        """a captured value is written by itself"""
        if I.silent:
            return
        for a in args:
            if is_lv(a) and a[1][0] == "F" and a[1][2] == "second":
                name = models.S(st, F(a[1][1], "first"))
                want = models.S(st, ("P", ("ap", "optval", ("str", "filter"))))
                ok = name == want or any(st.decide(t) is True for t in (mk_eq(name, want), ("ap", "streq", name, want), ("ap", "streq", want, name), mk_eq(("ap", "compare", name, want), I0),
                                                                        mk_eq(("ap", "compare", want, name), I0)))
                if not ok and a[1][1][0] == "I":
                    # one of the entries found under that name
                    i = a[1][1][2]
                    runs = {x for r in st.rels for t, _ in r[1] for x in subterms(t) if x[:2] == ("ap", "maprun")} | {x for x in subterms(i) if x[:2] == ("ap", "maprun")}
                    ok = any(x[4] == want and st.le(x[:2] + ("lower",) + x[3:], i) and st.lt(i, x[:2] + ("upper",) + x[3:]) for x in runs)
                self.filtered.add((self.place(fr, e), ok))

    def checked_by_exception(self, I, st):
        if st.decide(mk_eq(self.get(st, "throws"), I1)) is True and I.sinks:
            b = st.copy()
            self.put(I, b, "failed", 1)
            I.sinks[-1].append((("type", "std::ios_base::failure", None), b))
            self.put(I, st, "dirty", 0)

    # ------------------------------------------------------------ options
    def key(self, I, st, v):
        if v is None:
            return None
        if is_lv(v):
            v = models.S(st, v[1])
        if v[0] == "str":
            return v[1]
        if v[:2] == ("ap", "cstr") and v[2][0] == "str":
            return v[2][1]
        return None

    def given(self, key):
        return ("ap", "given", ("str", key))

    def options(self, I, st, fr, e, fn, name, last, obj, args):
        rec = fn.get("record") or ""
        if name == "boost::program_options::options_description_easy_init::operator()":
            k = self.key(I, st, args[0] if args else None)
            if k:
                self.declare(I, k, e)
            return None
        if name.startswith("boost::program_options::") and last == "allow_unregistered":
            self.decide(I, "arguments", False, self.place(fr, e), "unknown arguments are accepted")
        if last == "count" and obj is not None and ("variables_map" in rec or "map<" in rec) and args:
            k = self.key(I, st, args[0])
            if k is None:
                return None
            self.ask(I, st, fr, e, "count", k, None)
            if k in self.defaults:
                return [(I1, st)]
            return [(self.given(k), self.boolean(st, k))]
        if last in ("operator[]", "at", "find") and obj is not None and "variables_map" in rec + name and args:
            k = self.key(I, st, args[0])
            if k is None:
                return None
            p = ("ap", "option", ("str", k))
            st.dom.setdefault(p, (1, None, frozenset((0,)), None))
            return [(("LV", ("P", p)), st)]
        if obj is not None and obj[0] == "P" and obj[1][:2] == ("ap", "option"):
            k = obj[1][2][1]
            if last == "defaulted":
                self.ask(I, st, fr, e, "defaulted", k, None)
                return [(mk_not(mk_not(mk_eq(self.given(k), I0))), self.boolean(st, k))]
            if last == "empty":
                self.ask(I, st, fr, e, "empty", k, None)
                if k in self.defaults:
                    return [(I0, st)]
                return [(mk_eq(self.given(k), I0), self.boolean(st, k))]
            if last in ("as", "value"):
                t = None
                ta = fn.get("targs") or []
                if ta and isinstance(ta[0], str):
                    t = ta[0]
                self.ask(I, st, fr, e, "as", k, t or strip_cv(noref(fn["ret"])))
                p = ("ap", "optval", ("str", k))
                st.dom.setdefault(p, (1, None, frozenset((0,)), None))
                TYPES[p] = strip_cv(noref(fn["ret"])) + " *"
                return [(("LV", ("P", p)), st)]
        return None

    def boolean(self, st, k):
        TYPES.setdefault(self.given(k), "bool")
        return st

    def ask(self, I, st, fr, e, kind, k, t):
        if I.silent:
            return
        g = st.decide(mk_eq(self.given(k), I0))
        self.asked.setdefault(k, set()).add((kind, t, self.place(fr, e), None if g is None else not g))

    def declare(self, I, spec_, e):
        key, _, short_ = spec_.partition(",")
        t, default = None, False
        for n in walk(e.get("args") or []):
            f = I.P.fn.get(n.get("fn") or "")
            if f is None:
                continue
            nm = I.P.sq(f)
            if nm == "boost::program_options::value":
                t = (f.get("targs") or [None])[0]
            elif nm == "boost::program_options::bool_switch":
                t, default = "bool", True
            elif nm.endswith("::default_value"):
                default = True
        self.declared[key] = (short_, t, "%s" % e.get("l"))
        if default:
            self.defaults.add(key)

    # ------------------------------------------------------------ what the tool does
    def step(self, I, st, fr, e, what, args, fn, obj=None):
        if what in ("script", "file", "html"):
            self.decide(I, "order", self.is0(st, "printed"), self.place(fr, e),
                        "%s after something was printed to standard output" % {"script": "a script is parsed", "file": "a file is read", "html": "HTML is parsed"}[what])
        n = {"script": "nscripts", "html": "nhtml", "extract": "nextracts"}.get(what)
        if n:
            self.bump(I, st, n)
        if what == "html":
            self.put(I, st, "html", 1)
        if what == "extract":
            self.decide(I, "printed", self.is0(st, "unprinted"), self.place(fr, e), "a result may be dropped without being printed")
            self.put(I, st, "extracted", 1)
            self.put(I, st, "unprinted", 1)
        if not I.silent:
            self.events.append((what, args, fn, obj, st.copy(), fr, e, self.place(fr, e)))
        I.event(st, "step", what)


class Main:
    """main() on all paths, interpreted once per check"""

    def __init__(self, P, c=None, ghosts=()):
        self.P = P
        self.E = escape.Escapes(P) if c is None else c.E
        self.c = CliClient(P, self.E) if c is None else c
        f = P.one("main")
        self.f = f

        def setup(X, I, st):
            for n in ("dirty", "printed", "flushed", "failed", "caught", "told", "html", "extracted", "throws", "type", "unprinted") + tuple(ghosts):
                self.c.put(I, st, n, 0)
            for n in COUNTS:
                self.c.put(I, st, n, 0)
                I.LT[F(G, n)] = "unsigned long"
        self.X = spec.Exec(P, f, setup=setup, client=self.c)
        self.ends = []
        for p in self.X.paths:
            if p.kind == "R":
                self.ends.append((p, p.ret if p.ret is not None else I0))
            elif p.payload[0] == "noreturn":
                code = p.payload[2][0] if p.payload[1] in ENDS and p.payload[2] else ("i", 134)
                self.ends.append((p, code))

    def given(self, p, key):
        """True / False / None"""
        d = p.st.decide(mk_eq(self.c.given(key), I0))
        return None if d is None else not d

    def size(self, st, *keys):
        t = I0
        for k in keys:
            p = ("ap", "optval", ("str", k))
            if not any(k == o for o in self.c.declared):
                raise AnalysisBroken("no option %s" % k)
            t = add(t, st.load(F(("P", p), "$n"), "unsigned long"))
        return t

    def count(self, st, n):
        return st.load(F(G, n), "unsigned long")

    def regular(self, n):
        """the loops that count n do so by a constant in every round; None if there is none"""
        loops = [L for L in self.X.loops.values() if not L.trial and F(G, n) in L.phis]
        return [(L, [lin_comb(to_lin(b.load(F(G, n), "unsigned long")), 1, to_lin(L.phis[F(G, n)][0]), -1) for b in L.backs]) for L in loops]

    def zero(self, p, c):
        return p.st.decide(mk_eq(c, I0))

    def about(self, p):
        opts = [k for k in self.c.declared if self.given(p, k)]
        t = spec.fixed(p.st, self.c.get(p.st, "type"))
        return "options %s%s" % (",".join(opts) or "none", ", after %s" % self.c.types[t - 1] if t else "")


def guarded(fn):
    def run(R, *a):
        try:
            return fn(R, *a)
        except AnalysisBroken as ex:
            R.skip(R.prop, str(ex)[:500])
            return R.finish()
    run.__name__ = fn.__name__
    return run


TRUST = ["boost::program_options reports what it cannot parse by exceptions", "models of streams and options in hx/checks/cmdline.py",
         "types thrown by library functions without source: hx/escape.py"]


@guarded
def c21(R):
    R.rule("reported", "every path that catches an exception or sees standard output fail prints a message on standard error and ends with a non-zero status", minimum=5)
    R.rule("success", "every path that ends with zero has caught nothing and has checked standard output after the last output", minimum=3)
    R.rule("message", "every path that ends with a non-zero status has printed a message on standard error", minimum=3)
    R.rule("escape", "no exception leaves main and no call ends the process without message", minimum=1)
    R.rule("complete", "success is reported only after every script and document of the command line was parsed, every rule applied to every document and every result printed", minimum=3)
    R.rule("arguments", "arguments the tool does not know are rejected", minimum=0)
    R.rule("reading", "a file is returned as read only if it could be opened, was read up to its end and no read failed", minimum=1)
    P = program()
    M = Main(P)
    c = M.c
    R.fn(M.f)
    for fid in c.seen:
        R.fn(P.fn[fid])
    for p, code in M.ends:
        z = M.zero(p, code)
        caught = c.zero(p.st, "caught")
        failed = c.zero(p.st, "failed")
        told = c.zero(p.st, "told") is False
        what = "main: " + M.about(p)
        if caught is not True or failed is not True:
            R.check("reported", z is False, what, "%s: the exit status can be zero although %s" % (what, "an exception was caught" if caught is not True else "writing to standard output failed"),
                    key="status:%s" % what)
        if z is not False:
            ok = c.is0(p.st, "dirty")
            R.check("success", ok, what, "%s: success is reported although it is not known whether the output was written" % what, key="unchecked:%s" % what)
        if z is not True:
            R.check("message", told, what, "%s: the tool fails without a message on standard error" % what, key="silent:%s" % what)
    complete(R, M)
    esc = {}
    for p in M.X.paths:
        if p.kind == "T" and p.payload[0] == "type":
            esc.setdefault(p.payload[1], p)
    for t, p in sorted(esc.items()):
        R.violation("escape", "main: %s" % t, "%s leaves main (%s)" % (t, M.about(p)))
    if not esc:
        R.ok("escape", "main")
    reach = M.E.reach([M.f["id"]])
    for f, t, w in M.E.terminates(reach):
        if t.startswith("boost::program_options") or t.startswith("std::") or t.startswith("hext") or t == escape.ANY:
            R.violation("escape", "%s" % P.sq(f), "%s meets noexcept %s" % (t, P.sq(f)))
    for (rule, where), msg in sorted(c.said.items()):
        if rule == "arguments":
            R.violation("arguments", where, msg)
    from . import cmdfile
    cmdfile.reading(R, P)
    return R.finish("other", "abstract interpretation of main with all functions of the tool looked through: %d paths, exceptions of every call, ghost state of standard output and standard error" % len(M.X.paths), TRUST)


def subsets(keys):
    return [[k for i, k in enumerate(keys) if m >> i & 1] for m in range(1 << len(keys))]


def early(M, x, L, keys):
    """the loop is left in x although something is left to do"""
    if not M.c.is0(x, "caught"):
        return False
    return any(x.lt(p, M.size(x, k)) for l, (p, t, e) in L.phis.items() if l[:2] != G_PREFIX and is_const(e) for k in keys)


def late(M, L, keys):
    """an index of the loop starts after the first of the inputs and ends with the last"""
    for l, (p, t, e) in L.phis.items():
        if l[:2] != G_PREFIX and is_const(e) and e[1] > 0 and all(lin_comb(to_lin(b.load(l, t)), 1, to_lin(p), -1) == (1, ()) for b in L.backs):
            if any(x.le(M.size(x, k), p) for x in L.exits for k in keys):
                return True
    return False


def complete(R, M):
    """everything that was asked for is done before success is reported"""
    c = M.c
    words = {"nscripts": "script", "nhtml": "HTML document"}
    bad = set()
    for n, word in (("nscripts", "script"), ("nhtml", "HTML document"), ("nextracts", "result")):
        for L, deltas in M.regular(n):
            where = "%s: loop at line %s" % (short(L.fn["qn"]), L.line)
            none = [d for d in deltas if d == (0, ())]
            some = [d for d in deltas if d != (0, ())]
            if not some:
                continue
            if any(not d[1] for d in deltas):
                R.check("complete", not none, "%s, every round (%s)" % (where, word), "%s: a round can end without %s" % (where, {
                    "nscripts": "a script having been parsed", "nhtml": "an HTML document having been parsed", "nextracts": "the rule having been applied"}[n]))
                if none:
                    bad.add(n)
            if n == "nextracts" and L.range is not None:
                for x in L.exits:
                    size = spec.size_of(M.X, x, L.range)
                    idx = [p for l, (p, t, e) in L.phis.items() if l[0] == "T" and e == I0 and x.lt(p, size)]
                    if idx and c.is0(x, "caught"):
                        R.violation("complete", where, "%s can be left before every rule was applied to every document" % where)
    for p, code in M.ends:
        if M.zero(p, code) is False or M.given(p, "help") is not False or M.given(p, "version") is not False:
            continue
        what = "main: " + M.about(p)
        todo = [("nscripts", ("hext", "str"))] + ([("nhtml", ("html",))] if M.given(p, "lint") is not True else [])
        for n, keys in todo:
            ok = equal(p.st, M.count(p.st, n), M.size(p.st, *keys))
            if ok:
                R.ok("complete", "%s: every %s" % (what, words[n]))
                continue
            loops = M.regular(n)
            if n in bad:
                continue
            if not loops:
                if is_const(M.count(p.st, n)) and all(n in c.counted for n in ("nscripts", "nhtml")):
                    R.violation("complete", what, "%s: success is reported without every %s having been parsed" % (what, words[n]))
                else:
                    R.skip("complete", "%s: how often a %s is parsed was not recognised" % (what, words[n]))
            elif all(not d[1] for L, ds in loops for d in ds) and (
                    any(equal(p.st, M.count(p.st, n), add(M.size(p.st, *ks), ("i", o))) for ks in subsets(keys) for o in (-2, -1, 0, 1, 2)) or
                    any(early(M, x, L, keys) for L, ds in loops for x in L.exits) or any(late(M, L, keys) for L, ds in loops)):
                R.violation("complete", what, "%s: success is reported although not every %s may have been parsed" % (what, words[n]))
            else:
                R.skip("complete", "%s: how often a %s is parsed was not recognised" % (what, words[n]))
        if M.given(p, "lint") is not True:
            ok = c.is0(p.st, "unprinted") or M.given(p, "filter") is True
            R.check("complete", ok, "%s: results printed" % what, "%s: a result may be dropped without being printed" % what)
    for where in sorted(x for x in c.count.get("printed", ())):
        msg = c.said.get(("printed", where))
        R.check("complete", msg is None, where + " (printed)", msg and "%s: %s" % (where, msg))


@guarded
def c22(R):
    R.rule("order", "when a script or file is read or parsed nothing was printed to standard output", minimum=4)
    R.rule("diagnostics", "nothing is printed to standard output after an exception was caught", minimum=1)
    R.rule("lint", "with the lint option nothing is printed and no HTML is parsed", minimum=1)
    P = program()
    M = Main(P)
    c = M.c
    for fid in c.seen:
        R.fn(P.fn[fid])
    for rule in ("order", "diagnostics"):
        for where in sorted(c.count.get(rule, ())):
            msg = c.said.get((rule, where))
            R.check(rule, msg is None, where, msg and "%s: %s" % (where, msg))
    # the extraction loop may print before it reads on only if everything was read
    for p, code in M.ends:
        if M.given(p, "lint") is not True or M.given(p, "help") is not False or M.given(p, "version") is not False:
            continue
        what = "main: " + M.about(p)
        R.check("lint", c.is0(p.st, "printed"), what, "%s: something is printed although only a syntax check was asked for" % what, key="lint-out:" + what)
        R.check("lint", c.is0(p.st, "html"), what, "%s: HTML is parsed although only a syntax check was asked for" % what, key="lint-html:" + what)
    return R.finish("other", "abstract interpretation of main with all functions of the tool looked through: %d paths" % len(M.X.paths), TRUST)


def manual():
    """[(short name, long name)] of the options the manual page describes"""
    try:
        text = open(os.path.join(facts.REPO, "man", "htmlext.ronn"), encoding="utf-8").read()
    except OSError:
        return None
    out = []
    for l in text.splitlines():
        m = re.match(r"\s*\*\s+(.*)", l)
        if m and "`-" in l:
            names = re.findall(r"`(--?)([A-Za-z][\w-]*)", m.group(1))
            long_ = [n for d, n in names if d == "--"]
            short_ = [n for d, n in names if d == "-"]
            if long_:
                out.append((short_[0] if short_ else "", long_[0]))
    return out


def strip_space(t):
    return re.sub(r"\s+", "", strip_cv(t or ""))


@guarded
def c23(R):
    R.rule("declared", "every option that is consulted is declared, with the type it is read as", minimum=10)
    R.rule("given", "an option is read only where it is known to have been given, or has a default", minimum=3)
    R.rule("consulted", "every declared option is consulted", minimum=10)
    R.rule("effect", "options do what the manual page says: the search limit is passed on, the format follows pretty, compact and array, the filter prints matching values only", minimum=3)
    R.rule("documented", "every option is described in the manual page with its short name, and only those", minimum=10)
    R.rule("names", "option names that appear in texts and comparisons are names of declared options", minimum=1)
    P = program()
    M = Main(P)
    c = M.c
    for fid in c.seen:
        R.fn(P.fn[fid])
    if not c.declared:
        R.skip("declared", "no option declaration was recognised")
        R.minimum.clear()
        return R.finish()
    for k, uses in sorted(c.asked.items()):
        for kind, t, place, given in sorted(uses, key=repr):
            what = "%s: %s of %s" % (place, kind, k)
            R.check("declared", k in c.declared, what, "%s: option %s is not declared" % (place, k), key="undeclared:%s" % k)
            if kind == "as" and k in c.declared:
                dt = c.declared[k][1]
                R.check("declared", dt is not None and strip_space(dt) == strip_space(t), what + ", type", "%s: option %s is read as %s but declared %s" % (
                    place, k, short(t), "as " + short(dt) if dt else "without value"), key="type:%s:%s" % (k, place))
                R.check("given", k in c.defaults or given is True, what, "%s: the value of %s is read although the option may not have been given" % (place, k),
                        key="given:%s:%s" % (k, place))
    for k in sorted(c.declared):
        R.check("consulted", k in c.asked, k, "option %s is declared but never consulted" % k)
    # effects
    n = 0
    for what, args, fn, obj, st, fr, e, place in c.events:
        if what != "extract":
            continue
        n += 1
        lim = args[1] if len(args) > 1 else None
        want = ("rd", ("P", ("ap", "optval", ("str", "max-searches"))))
        if is_lv(lim):
            lim = st.load(lim[1])
        R.check("effect", lim == want, "%s: search limit" % place, "%s: the search limit passed to extract is not the value of max-searches" % place, key="limit:%s" % place)
    fs = [f for f in P.repo_functions() if f.get("has_body") and f["ret"].endswith("JsonOption") and not f["name"].startswith("operator") and (f.get("record") or not f["params"])]
    for f in fs:
        formats(R, P, M, f)
    if not fs:
        R.skip("effect", "no function that determines the output format")
    filtering(R, M)
    man = manual()
    if man is None:
        R.skip("documented", "no manual page")
        R.minimum["documented"] = 0
    else:
        docs = dict((l, s) for s, l in man)
        for k in sorted(c.declared):
            R.check("documented", k in docs, k, "option --%s is not described in the manual page" % k)
            if k in docs:
                R.check("documented", docs[k] == c.declared[k][0], k + ", short name", "option --%s has the short name %r but the manual page says %r" % (k, c.declared[k][0], docs[k]))
        for l in sorted(docs):
            R.check("documented", l in c.declared, "described: " + l, "the manual page describes --%s, which is no option" % l)
    names(R, P, c)
    return R.finish("other", "options as declared on the path through the constructor, every consultation on every path of main, the manual page's option list", TRUST)


def formats(R, P, M, f):
    c = CliClient(P, M.E)
    c.merging, c.throwing, c.relate, c.apart = False, False, False, 4096
    c.declared, c.defaults = M.c.declared, M.c.defaults
    X = spec.Exec(P, f, client=c)
    try:
        pretty, array = spec.enum(P, "JsonOption", "PrettyPrint"), spec.enum(P, "JsonOption", "ArrayEnvelope")
    except AnalysisBroken:
        return R.skip("effect", "no JsonOption enumerators")
    name = short(f["qn"])
    for p in X.returns:
        v = spec.fixed(p.st, p.ret)
        if v is None:
            R.skip("effect", "%s: the result of a path is not a constant" % name)
            continue
        g = {k: None if p.st.decide(mk_eq(c.given(k), I0)) is None else not p.st.decide(mk_eq(c.given(k), I0)) for k in ("pretty", "compact", "array")}
        tty = None
        for t in p.st.dom:
            if t[:2] == ("ap", "isatty") or t[0] == "ap" and "isatty" in str(t[1]):
                d = p.st.decide(mk_eq(t, I0))
                tty = None if d is None else not d
        what = "%s: %s%s" % (name, ", ".join("%s %s" % (k, {True: "given", False: "not given", None: "or not"}[x]) for k, x in g.items()), "" if tty is None else ", terminal" if tty else ", no terminal")
        on = bool(v & pretty)
        # contradicts the manual page for some choice of what the path does not know
        bad = []
        for a in ([g["pretty"]] if g["pretty"] is not None else [True, False]):
            for b in ([g["compact"]] if g["compact"] is not None else [True, False]):
                for t in ([tty] if tty is not None else [True, False]):
                    want = None if a and b else True if a else False if b else t
                    if want is not None and want != on:
                        bad.append("with%s%s%s the output is %s" % (" --pretty" if a else "", " --compact" if b else "", "" if a or b else " neither --pretty nor --compact and standard output %s a terminal" % ("being" if t else "not being"),
                                                                     "pretty-printed" if on else "compact"))
        R.check("effect", not bad, what + " (format)", "%s: %s" % (name, bad and bad[0]), key="format:%s:%s" % (name, bad and bad[0]))
        ar = bool(v & array)
        wrong = [x for x in ([g["array"]] if g["array"] is not None else [True, False]) if x != ar]
        R.check("effect", not wrong, what + " (array)", "%s: the output is %swrapped in an array although --array was %sgiven" % (name, "" if ar else "not ", "" if not ar else "not "), key="array:%s:%s" % (name, ar))


def filtering(R, M):
    """values are printed one by one only where the name equals the filter"""
    c = M.c
    for (where, ok) in sorted(c.filtered):
        R.check("effect", ok, "%s: filter" % where, "%s: a captured value is printed although its name was not compared with the filter" % where)


def names(R, P, c):
    shorts = {v[0] for v in c.declared.values()}
    for f in sorted(P.repo_functions(), key=lambda f: f["qn"]):
        if not f.get("has_body") or "/htmlext/" not in f["loc"]:
            continue
        for n in walk([f["body"]] + [i.get("e") for i in f.get("inits") or []]):
            if n.get("k") != "str" or not isinstance(n.get("v"), str):
                continue
            for d, w in re.findall(r"(?<![\w-])(--?)([A-Za-z][\w-]*)", n["v"]):
                if d == "--":
                    R.check("names", w in c.declared, "%s: --%s" % (short(f["qn"]), w), "%s (line %s) names --%s, which is no option" % (short(f["qn"]), n.get("l"), w), key="name:%s:--%s" % (short(f["qn"]), w))
                elif len(w) == 1:
                    R.check("names", w in shorts, "%s: -%s" % (short(f["qn"]), w), "%s (line %s) names -%s, which is no option" % (short(f["qn"]), n.get("l"), w), key="name:%s:-%s" % (short(f["qn"]), w))
