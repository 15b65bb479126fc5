"""Collects safety obligations of all functions of the library and of htmlext.

Roots are the functions that can be called from outside (exported, virtual,
recursive, address taken) plus the functions listed in ANCHORS; everything else
is analysed inline in its callers.  Pointer parameters of internal roots get
preconditions that are verified at every call site (greatest fixpoint).
"""
from . import interp
from .dom import *
from .facts import AnalysisBroken, short, walk, rel

# Functions that are analysed on their own instead of inside their callers.  A function
# that is not listed (a new helper, say) is analysed inline, with full context.
ANCHORS = {
    "hext::RuleMatchesNodeRecursive", "hext::MatchRuleOnce", "hext::SaveMatchingNodesRecursive", "hext::MatchRange",
    "hext::FindMandatoryRule", "hext::MatchRuleGroup", "hext::Rule::matches", "hext::Rule::capture", "hext::Rule::extract",
    "hext::Rule::append_next", "hext::SerializeNode", "hext::SerializeElement", "hext::StripTags", "hext::NodeText",
    "hext::NodeInnerHtml", "hext::ContainsWord", "hext::PrintNumberedLines", "hext::TrimAndCollapseWs", "hext::CharName",
    "hext::ParseHext", "hext::Parser::parse", "htmlext::PrintJson", "htmlext::PrintJsonValue",
    "htmlext::ReadFileOrThrow", "htmlext::ProgramOptions::ProgramOptions",
}
# const char * parameters of exported functions: documented as C strings, except where
# the absent value is part of the interface
NULLABLE = {("hext::ValueTest::test", 0)}


def exported(f):
    return f.get("vis") == "default" and f.get("extlinkage") and "/libhext/" in f["loc"] and f.get("access") != "private"


def is_virtual(f):
    return f.get("virtual") or f.get("overrides")


class Collector(interp.Client):
    traces = False

    def __init__(self, A):
        self.A = A

    def inline(self, I, fn, fr):
        n = I.P.sq(fn)
        if n in ANCHORS or I.recursive(fn["id"], ANCHORS) or I.machine(fn):
            return False
        self.A.seen.add(fn["id"])
        return True

    def call(self, I, st, fr, e, fn, obj, args):
        if fn is not None and fn.get("inrepo") and not I.silent:
            self.A.called(I, st, fr, e, fn, args)
        if e is not None and e.get("k") == "construct" and not I.silent:
            rec = e.get("rec")
            for i, f in enumerate(("first", "second")):
                if self.A.fields.get((rec, f)) and not e.get("copy") and not e.get("move"):
                    v = args[i] if i < len(args) else I0
                    if interp.is_lv(v):
                        v = st.load(v[1])
                    if v is None or not st.nonnull(v):
                        self.A.drop_field(rec, f, "%s %s" % (fr.fn["qn"], e.get("l")))
        return None

    def field_write(self, I, st, fr, e, value):
        k = (e["l_"].get("rec"), e["l_"]["f"])
        if self.A.fields.get(k) and not I.silent and not st.nonnull(value):
            self.A.drop_field(k[0], k[1], "%s %s" % (fr.fn["qn"], e.get("l")))

    def oblig(self, I, kind, ok, st, fr, e, detail):
        if not fr.fn.get("inrepo"):
            if kind == "narrow":
                return
            f = fr
            while f and not f.fn.get("inrepo"):
                e = getattr(f, "call", None) or e
                f = f.parent
            fr = f or fr
        self.A.add(kind, ok, st, fr, e, detail)


class Obligations:
    def __init__(self, P):
        self.P = P
        self.pre = {}      # (fid, param index) -> non-null
        self.fields = {}   # (record, field) -> non-null
        self.results = {}
        self.broken = {}
        self.dropped = {}
        self.run()

    # ---------------------------------------------------------------- roots
    def roots(self):
        P = self.P
        out = []
        for f in sorted(P.repo_functions(), key=lambda f: (f["loc"], f["id"])):
            if not f.get("has_body") or f.get("lambda"):
                continue
            I = self.I0
            if I.machine(f):
                continue
            n = P.sq(f)
            if n in ANCHORS or n == "main" or exported(f) or is_virtual(f) or I.recursive(f["id"], ANCHORS):
                out.append(f)
        return out

    def internal(self, f):
        return not exported(f) and not is_virtual(f) and self.P.sq(f) != "main"

    def run(self):
        P = self.P
        self.I0 = interp.Interp(P, interp.Client())
        for r in P.records.values():
            if not r.get("inrepo"):
                continue
            for fl in r.get("fields", []):
                if is_ptr(fl["t"]) and strip_cv(fl["t"]) != fl["t"] or is_ptr(fl["t"]) and self.only_ctor_writes(fl["name"], r):
                    self.fields[(r["name"] if "name" in r else None, fl["name"])] = True
        self.fields = {k: v for k, v in self.fields.items() if k[0] and k[1]}
        for f in P.repo_functions():
            for n in walk(f.get("body")):
                if n.get("k") == "member" and n.get("rec", "").startswith("std::pair<") and is_ptr(n.get("t", "")):
                    self.fields[(n["rec"], n["f"])] = True
                elif n.get("k") == "call" and n.get("qn") == "std::get" and len(n.get("args", ())) == 1:
                    r = strip_cv(noref(n["args"][0].get("t", "")))
                    if r.startswith("std::pair<") and is_ptr(noref(n.get("t", ""))):
                        f = (P.fn.get(n.get("fn")) or {}).get("targs") or [""]
                        if str(f[0]) in ("0", "1"):
                            self.fields[(r, ("first", "second")[int(f[0])])] = True
        for rnd in range(8):
            self.results, self.broken = {}, {}
            self.seen = set()
            self.changed = False
            self.calls_seen = {}
            done = set()
            for f in self.roots():
                done.add(f["id"])
                self.one(f)
            # functions that nobody reaches through analysed code, callers first
            while True:
                todo = {f["id"]: f for f in P.repo_functions() if f.get("has_body") and f["id"] not in done and f["id"] not in self.seen
                        and not f.get("lambda") and not self.I0.machine(f) and not f.get("defaulted") and not f.get("implicit")}
                if not todo:
                    break
                top = [f for f in todo.values() if not (self.callers().get(f["id"], set()) - {f["id"]}) & set(todo)] or list(todo.values())
                for f in top[:1]:
                    done.add(f["id"])
                    self.one(f)
            if not self.changed:
                break
        self.analysed = done | self.seen

    def only_ctor_writes(self, name, r):
        for f in self.P.repo_functions():
            if f.get("kind") == "ctor":
                continue
            for n in walk(f.get("body")):
                if n.get("k") == "assign" and n["l_"].get("k") == "member" and n["l_"]["f"] == name:
                    return False
                if n.get("k") in ("unop",) and n["e"].get("k") == "member" and n["e"]["f"] == name and n["op"] in ("&", "++", "--"):
                    return False
        return True

    def setup(self, f):
        def go(I, st, fr):
            n = self.P.sq(f)
            if n == "main":
                argv = I.params[1]
                st.assume(argv, True)
                st._setdom(I.params[0], lo=1)
                v0 = ("rd", ("I", ("P", argv), I0))
                TYPES[v0] = "char *"
                st.assume(v0, True)
                I.lens[("P", argv)] = I.params[0]
            for i, p in enumerate(f["params"]):
                if not is_ptr(p["t"]):
                    continue
                if self.internal(f):
                    if self.pre.get((f["id"], i), True) and self.has_callers(f):
                        st.assume(I.params[i], True)
                elif strip_cv(p["t"]) in ("char *", "const char *") and not self.nullable(f, i):
                    st.assume(I.params[i], True)
            self.callers()
            if f.get("record") == "hext::Parser" and fr.this and f.get("kind") != "ctor" and f["id"] in self.P._mcalled:
                # called by the generated state machine: C02 shows that there always is a stack
                n = st.load(F(fr.this, "stacks_", "$n"), "unsigned long")
                st._setdom(n, lo=1)
                if is_ref(f["ret"]):
                    # ... and a current rule whenever an action uses it
                    m = st.load(F(("I", F(fr.this, "stacks_"), add(n, I1, -1)), "$n"), "unsigned long")
                    st._setdom(m, lo=1)
            if f.get("kind") != "ctor":
                I.nn_fields = {k for k, ok in self.fields.items() if ok}
            else:
                I.nn_fields = {k for k, ok in self.fields.items() if ok and k[0] != f.get("record")}
        return go

    def callers(self):
        c = self.P.__dict__.get("_callers")
        if c is None:
            c = self.P._callers = {}
            mc = self.P._mcalled = set()
            ad = self.P._addr = set()
            for g in self.P.fn.values():
                if not g.get("has_body"):
                    continue
                m = self.I0.machine(g)
                for n in walk([g.get("body"), g.get("inits")]):
                    if n.get("fn"):
                        c.setdefault(n["fn"], set()).add(g["id"])
                        if m:
                            mc.add(n["fn"])
                        if n.get("k") == "fn":
                            ad.add(n["fn"])
        return c

    def has_callers(self, f):
        """called, never from generated code, and its address is not taken"""
        return bool(self.callers().get(f["id"])) and f["id"] not in self.P._mcalled and f["id"] not in self.P._addr

    def nullable(self, f, i):
        n = self.P.sq(f)
        if (n, i) in NULLABLE:
            return True
        for b in f.get("overrides", []):
            if b in self.P.fn and self.nullable(self.P.fn[b], i):
                return True
        return False

    def called(self, I, st, fr, e, fn, args):
        n = I.P.sq(fn)
        if not self.internal(fn):
            return
        for i, p in enumerate(fn["params"]):
            if i < len(args) and is_ptr(p["t"]) and args[i] is not None and not interp.is_lv(args[i]):
                if not st.nonnull(args[i]) and self.pre.get((fn["id"], i), True):
                    self.pre[(fn["id"], i)] = False
                    self.changed = True

    def one(self, f):
        c = Collector(self)
        I = interp.Interp(self.P, c)
        try:
            outs = I.run(f, setup=self.setup(f))
        except AnalysisBroken as ex:
            self.broken[f["id"]] = str(ex)
            return
        except RecursionError as ex:
            self.broken[f["id"]] = "recursion"
            return
        if f.get("kind") == "ctor":
            for (rec, fl), ok in list(self.fields.items()):
                if ok and f.get("record") == rec and not f.get("copyctor") and not f.get("movector"):
                    for k, v, s in outs:
                        if k == "R" and not s.nonnull(s.load(F(("P", ("ap", "this")), fl))):
                            self.drop_field(rec, fl, f["qn"])

    def drop_field(self, rec, f, where):
        self.fields[(rec, f)] = False
        self.dropped[(rec, f)] = where
        self.changed = True

    def add(self, kind, ok, st, fr, e, detail):
        e = e or {}
        root = fr
        while root.parent:
            root = root.parent
        key = (fr.fn["id"], e.get("l"), e.get("k"), kind)
        r = self.results.get(key)
        if r is None:
            r = self.results[key] = {"ok": True, "fn": fr.fn, "line": e.get("l"), "kind": kind, "detail": detail, "roots": set(), "n": 0}
        r["n"] += 1
        r["roots"].add(root.fn["qn"])
        if not ok:
            if r["ok"]:
                r["detail"] = detail
                r["via"] = [x.fn["qn"] for x in stack(fr)]
            r["ok"] = False


def stack(fr):
    out = []
    while fr:
        out.append(fr)
        fr = fr.parent
    return out
