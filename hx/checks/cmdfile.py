"""Reading of files: a file that could not be read completely is never taken for a complete one (part of C21)."""
from .. import models, spec, strings
from ..dom import *
from ..facts import AnalysisBroken, rel, short, walk
from ..interp import is_lv

#: members that neither read nor change what is known about the stream
QUIET = {"is_open", "rdbuf", "flags", "tie", "width", "precision", "imbue", "getloc", "close", "exceptions", "unsetf", "setf", "rdstate"}
#: states of a stream ($s); $n: characters of the last read, $p: they were not used yet
CLOSED, FINE, END, BAD = -1, 0, 1, 2


WORDS = {CLOSED: "not opened", FINE: "not at the end", END: "at the end", BAD: "read error"}


class FileClient(spec.SpecClient):
    def __init__(self, P, f):
        super().__init__(P)
        self.f = f
        self.streams = set()
        self.unknown = {}
        self.lost = {}

    def get(self, st, loc, n):
        return st.load(F(loc, n), "long" if n == "$n" else "int")

    def put(self, I, st, loc, **v):
        for k, x in v.items():
            I.LT[F(loc, "$" + k)] = "long" if k == "n" else "int"
            st.store[F(loc, "$" + k)] = ("i", x) if isinstance(x, int) else x

    def inline(self, I, fn, fr):
        return fn["id"] != self.f["id"] and super().inline(I, fn, fr)

    def opened(self, I, st, loc):
        b = st.copy()
        self.put(I, st, loc, s=FINE, n=0, p=0)
        self.put(I, b, loc, s=CLOSED, n=0, p=0)
        return [st, b]

    def dropped(self, I, st, fr, e, loc):
        if not I.silent and st.decide(mk_eq(self.get(st, loc, "$p"), I0)) is not True:
            self.lost.setdefault("%s" % e.get("l"), "characters that were read are dropped")

    def call(self, I, st, fr, e, fn, obj, args):
        if fn is None:
            return None
        name, rec = I.P.sq(fn), fn.get("record") or ""
        last = name.rsplit("::", 1)[-1]
        if fn["id"] == self.f["id"]:
            I.event(st, "delegated", models.S(st, args[0][1]) if args and is_lv(args[0]) else None)
            return None
        if fn.get("kind") == "ctor" and obj is not None and "basic_ifstream" in rec or last == "basic_ifstream" and obj is not None:
            self.streams.add(obj)
            if not fn["params"] or fn.get("movector"):
                self.put(I, st, obj, s=CLOSED, n=0, p=0)
                return [(None, st)]
            return [(None, x) for x in self.opened(I, st, obj)]
        if obj in self.streams:
            if last == "open":
                return [(None, x) for x in self.opened(I, st, obj)]
            state = self.get(st, obj, "$s")
            fine = mk_eq(state, ("i", FINE))
            if last in ("fail", "operator!"):
                return [(mk_not(fine), st)]
            if last in ("operator bool", "good"):
                return [(fine, st)]
            if last == "bad":
                return [(mk_eq(state, ("i", BAD)), st)]
            if last == "eof":
                return [(mk_eq(state, ("i", END)), st)]
            if last == "is_open":
                return [(mk_not(mk_eq(state, ("i", CLOSED))), st)]
            if last == "gcount":
                return [(self.get(st, obj, "$n"), st)]
            if last == "read" and len(args) == 2:
                return [(("LV", obj), x) for x in self.read(I, st, fr, e, obj, I.load(args[1], st, "long"))]
            if last in QUIET:
                return None
            self.unknown.setdefault(name, "%s" % e.get("l"))
            return None
        for a in args:
            if is_lv(a) and a[1] in self.streams:
                if "istreambuf_iterator" in name:
                    # (the characters are taken by whatever the iterator is given to) reads to the end or throws
                    z = st.copy()
                    out = [(None, z)] if z.assume(mk_eq(self.get(z, a[1], "$s"), ("i", FINE)), False) and not z.dead else []
                    if st.assume(mk_eq(self.get(st, a[1], "$s"), ("i", FINE)), True) and not st.dead:
                        self.put(I, st, a[1], s=END, n=0, p=0)
                        out.append((None, st))
                    return out
                elif not (fn.get("inrepo") and fn.get("has_body")):
                    self.unknown.setdefault(name, "%s" % e.get("l"))
        # characters that were read are used
        for s in self.streams:
            n = self.get(st, s, "$n")
            if any(a is not None and not is_lv(a) and a == n for a in args) and n != I0:
                self.put(I, st, s, p=0)
        return None

    def read(self, I, st, fr, e, loc, size):
        self.dropped(I, st, fr, e, loc)
        out = []
        f = mk_eq(self.get(st, loc, "$s"), ("i", FINE))
        x = st.copy()
        if x.assume(f, False) and not x.dead:
            # nothing is read from a stream that has failed
            self.put(I, x, loc, n=0, p=0)
            out.append(x)
        if not st.assume(f, True) or st.dead:
            return out
        for s in (END, BAD):
            y = st.copy()
            n = I.fresh_ap("gcount", "long")
            y._setdom(n, lo=0)
            y.assume(mk_lt(n, size), True)
            for none in (True, False):
                z = y.copy()
                if z.assume(mk_eq(n, I0), none) and not z.dead:
                    self.put(I, z, loc, s=s, n=I0 if none else n, p=0 if none else 1)
                    out.append(z)
        self.put(I, st, loc, s=FINE, n=size, p=1)
        return out + [st]


#: paths that do not stand for standard input
PATHS = ("", ".", "/", "--", "-.", ".-", "./", "./-", "/-", "../.-/", "-/", "a", "-a", "a-", "0", " -", "- ", "-" * 3, "a.html", "stdin")


def instead(R, X, p, name, others):
    """nothing else is read in place of a file that cannot be opened; only "-" stands for standard input"""
    what = "%s: reads another path" % name
    loc = X.params.get(0)
    path = X.entry.load(F(loc, "$s")) if loc is not None and loc[0] != "ap" else None
    if path is None or None in others:
        R.skip(what, "which path was asked for is not evident")
        return
    if all(o == path for o in others):
        R.ok("reading", what)
        return
    can = {t: strings.possible(p.st, path, t) for t in PATHS}
    bad = [t for t in PATHS if can[t] is True]
    if bad:
        R.violation("reading", what, "%s reads %s when '%s' cannot be opened" % (name, show(others[0]), bad[0]), key="reading:%s:other" % name)
    elif any(c is None for c in can.values()):
        R.skip(what, "for which paths is not evident")
    else:
        R.ok("reading", what)


def reading(R, P):
    found = 0
    for f in sorted(P.repo_functions(), key=lambda f: f["qn"]):
        if not f.get("has_body") or "htmlext" not in f["loc"]:
            continue
        if not any(n.get("k") == "construct" and "basic_ifstream" in (n.get("rec") or "") for n in walk(f["body"])):
            continue
        found += 1
        R.fn(f)
        name = short(f["qn"])
        if "basic_string" not in f["ret"]:
            R.skip(name, "returns %s: what it reports is not known" % short(f["ret"]))
            continue
        c = FileClient(P, f)
        X = spec.Exec(P, f, client=c)
        if len(c.streams) != 1 or c.unknown:
            R.skip(name, "%d streams; %s" % (len(c.streams), ", ".join("%s at %s" % x for x in sorted(c.unknown.items()))))
            continue
        loc = next(iter(c.streams))
        for where, msg in sorted(c.lost.items()):
            R.violation("reading", name, "%s: %s" % (where, msg))
        for p in X.returns:
            others = [x[1] for x in p.trace if x[0] == "delegated"]
            if others:
                instead(R, X, p, name, others)
                continue
            s = c.get(p.st, loc, "$s")
            can = [n for n in (CLOSED, FINE, END, BAD) if p.st.decide(mk_eq(s, ("i", n))) is not False]
            what = "%s: %s" % (name, "/".join(WORDS[n] for n in can))
            for n, msg in ((CLOSED, "returns a text although the file could not be opened"), (FINE, "may stop before the end of the file"),
                           (BAD, "takes a read error for the end of the file")):
                R.check("reading", n not in can, "%s (not %s)" % (what, WORDS[n]), "%s %s" % (name, msg), key="reading:%s:%d" % (name, n))
            R.check("reading", p.st.decide(mk_eq(c.get(p.st, loc, "$p"), I0)) is True, what + " (used)", "%s drops characters that were read" % name,
                    key="reading:%s:lost" % name)
    if not found:
        R.skip("reading", "no function that reads files from a std::ifstream")
        R.minimum["reading"] = 0
