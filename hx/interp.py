"""Path-sensitive abstract interpreter over the extracted syntax trees.

Every function is interpreted on abstract values (dom.py).  Paths are kept apart
while they differ in observable effects, and joined otherwise.  Loops are
summarised: everything a loop modifies becomes an unknown ('phi'), restricted by
inductive invariants that are found by eliminating candidates (Houdini).  The
interpreter reports obligations (dereferences, union accesses, index bounds,
arithmetic) and traces of observable events to a client.
"""
from . import dom
from .dom import *
from .facts import AnalysisBroken, walk, short, rel

MAXPATHS = 6000
NONNULL = {"rapidjson::GenericValue::Begin", "rapidjson::GenericValue::End", "boost::program_options::value", "strerror_r", "strerror", "rapidjson::GenericStringBuffer::GetString", "__errno_location"}

LENGTHS = {"std::count", "std::count_if", "std::basic_istream::gcount"}


class Frame:
    def __init__(self, fn, num, this=None, parent=None, lam=None):
        self.fn, self.num, self.this, self.parent, self.lam = fn, num, this, parent, lam
        self.depth = parent.depth + 1 if parent else 0

    def stack(self):
        f, out = self, []
        while f:
            out.append(f.fn["id"])
            f = f.parent
        return out


class Client:
    """What an analysis overrides."""

    maxjoin = 6
    ideal = False   # counters do not wrap around upwards (that is C11's and C26's subject)
    apart = 0       # up to so many paths that meet again are kept apart
    traces = True   # keep the order of events (paths with different events stay apart)

    def inline(self, I, fn, fr):
        return not I.recursive(fn["id"]) and not I.machine(fn)

    def call(self, I, st, fr, e, fn, obj, args):
        """returns a list of (value, state), or None to continue as usual"""
        return None

    def oblig(self, I, kind, ok, st, fr, e, detail):
        pass

    lifetimes = False  # died() and left() are called
    throwing = False
    merging = False   # states that meet are joined by the client
    relate = False    # look for loop invariants between flags

    def merge(self, I, sts):
        return sts

    def died(self, I, st, fr, vars):
        """variables whose block ends (before their destructors run)"""

    def left(self, I, st, fn, num):
        """a function that was looked into is left"""

    def may_throw(self, I, fn, e):
        """types of exceptions (asked only if throwing)"""
        return ()

    def caught(self, I, st, fr, h, exc):
        pass

    def opaque(self, I, st, fr, e, fn, obj, args, res):
        pass

    def field_write(self, I, st, fr, e, value):
        pass


class Loop:
    pass


def is_lv(v):
    return v is not None and v[0] == "LV"


class Interp:
    def __init__(self, prog, client=None):
        self.P = prog
        self.c = client or Client()
        self.silent = 0
        self.loops = {}
        self.sinks = []
        self.closures = {}
        self.cmp = None
        self.LT = {}
        self.ret = {}
        self.tempdtor = []
        self.unknown = set()
        self.wraps = {}
        self.lens = {}
        self.nn_fields = ()
        self.steps = 0
        from . import models
        self.models = models

    def recursive(self, fid, cut=frozenset()):
        """is the function part of a cycle of the direct call graph (that does not go through functions of `cut`)?"""
        all_ = self.P.__dict__.setdefault("_cyc", {})
        cut = frozenset(cut)
        c = all_.get(cut)
        if c is None:
            c = all_[cut] = cycles(self.P, cut)
        return fid in c

    def machine(self, fn):
        """generated state machine: not interpreted (engine B reads its tables)"""
        m = fn.get("_machine")
        if m is None:
            m = fn["_machine"] = any(n.get("k") == "goto" for n in walk(fn.get("body")))
        return m

    # ------------------------------------------------------------ types
    def is_class(self, t):
        t = strip_cv(noref(t))
        if t in INTS or is_ptr(t) or t in ("void", "float", "double", "long double", "std::nullptr_t"):
            return False
        if t in self.P.enums:
            return False
        if t.endswith("]"):
            return True
        if t.endswith(")") and "(lambda at " not in t:
            return False
        return True

    def unsigned(self, t):
        t = strip_cv(noref(t))
        return INTS.get(t, (1,))[0] == 0

    def setv(self, st, loc, term, t=None):
        if t is not None:
            self.LT[loc] = strip_cv(noref(t))
        st.write(loc, term)

    def obl(self, kind, ok, st, fr, e, detail=None):
        if not self.silent:
            self.c.oblig(self, kind, bool(ok), st, fr, e, detail)

    def event(self, st, *ev):
        if not self.c.traces and ev[0] not in ("loop",):
            return
        st.trace = Trace(st.trace, ev)

    # ------------------------------------------------------------ running functions
    def run(self, fn, st=None, this=None, args=None, setup=None):
        """interprets one function from an arbitrary state; [(kind, payload, state)]"""
        self.steps = 0
        if not fn.get("has_body"):
            raise AnalysisBroken("no body: " + fn["qn"])
        st = st or State()
        fr = Frame(fn, fresh())
        fr.root = True
        if this is not None:
            fr.this = this
        elif fn.get("record") and not fn.get("static"):
            fr.this = ("P", ("ap", "this"))
            st.dom[("ap", "this")] = (1, None, frozenset((0,)), None)
            TYPES[("ap", "this")] = fn["record"] + " *"
        self.params = {}
        for i, p in enumerate(fn["params"]):
            loc = ("V", p["id"], fr.num, p["name"])
            t = p["t"]
            if is_ref(t):
                base = ("H", fresh(), p["name"])
                base = ("P", ("ap", "param", ("n", p["name"] or "arg%d" % i)))
                st.dom[base[1]] = (1, None, frozenset((0,)), None)
                TYPES[base[1]] = strip_cv(noref(t)) + " *"
                st.refs[(p["id"], fr.num)] = base
                self.params[i] = base
            elif self.is_class(t):
                st.alias[loc] = ("H", fresh(), p["name"])
                self.params[i] = loc
            else:
                v = ("ap", "param", ("n", p["name"] or "arg%d" % i))
                TYPES[v] = strip_cv(t)
                self.setv(st, loc, v, t)
                self.params[i] = v
        if setup:
            setup(self, st, fr)
        self.rootframe = fr
        sink = []
        self.sinks.append(sink)
        outs = self.body(fn, st, fr)
        self.sinks.pop()
        return outs + [("T", exc, s) for exc, s in sink]

    def body(self, fn, st, fr):
        """executes initializers and body; outcomes R (payload value) / T"""
        sts = [st]
        if fn.get("inits") is not None:
            for ini in fn["inits"]:
                nxt = []
                for s in sts:
                    if "field" in ini and ini["field"] is not None:
                        loc = F(fr.this, ini["field"])
                        nxt += self.init_into(ini["e"], loc, s, fr, self.field_type(fn, ini["field"]))
                    else:
                        nxt += self.init_into(ini["e"], fr.this, s, fr, None)
                sts = nxt
        outs = []
        for s in sts:
            for k, p, s2 in self.ex(fn.get("body"), s, fr):
                if k == "N":
                    k, p = "R", None
                outs.append((k, p, s2))
        outs2 = []
        for k, p, s in outs:
            outs2 += [(k, p, x) for x in self.run_dtors(fn, s, fr, fr.params_dtor if hasattr(fr, "params_dtor") else [])]
        return outs2

    def field_type(self, fn, f):
        r = self.P.records.get(fn.get("record"))
        while r:
            for x in r.get("fields", []):
                if x["name"] == f:
                    return x["t"]
            r = self.P.records.get(r["bases"][0]) if r.get("bases") else None
        return None

    def rec_fields(self, rec):
        r = self.P.records.get(rec)
        out = []
        if r:
            for b in r.get("bases", []):
                out += self.rec_fields(b)
            out += r.get("fields", [])
        return out

    # ------------------------------------------------------------ statements
    def ex_seq(self, stmts, st, fr):
        outs, cur = [], [st]
        for s in stmts:
            if not cur:
                break
            nxt = []
            for c in cur:
                for k, p, s2 in self.ex(s, c, fr):
                    if k == "N":
                        nxt.append(s2)
                    else:
                        outs.append((k, p, s2))
            cur = self.join(nxt)
            if len(cur) > MAXPATHS:
                raise AnalysisBroken("too many paths in " + fr.fn["qn"])
        return outs + [("N", None, c) for c in cur]

    def block(self, s, st, fr):
        stmts = s["b"]
        outs = self.ex_seq(stmts, st, fr)
        # labels: forward jumps inside this block
        labels = {x["label"]: i for i, x in enumerate(stmts) if isinstance(x, dict) and x.get("k") == "label"}
        for _ in range(10):
            g = [o for o in outs if o[0] == "G" and o[1] in labels]
            if not g:
                break
            outs = [o for o in outs if not (o[0] == "G" and o[1] in labels)]
            for k, lab, s2 in g:
                outs += self.ex_seq(stmts[labels[lab]:], s2, fr)
        if self.c.lifetimes:
            vs = [v for x in stmts if isinstance(x, dict) and x.get("k") == "decl" for v in x["vars"] if not v.get("static")]
            if vs:
                for k, p, s2 in outs:
                    self.c.died(self, s2, fr, vs)
        # destructors of locals
        dt = []
        for x in stmts:
            if isinstance(x, dict) and x.get("k") == "decl":
                for v in x["vars"]:
                    if v.get("dtor") and not v.get("ref"):
                        dt.append(v)
        if dt:
            res = []
            for k, p, s2 in outs:
                res += [(k, p, x) for x in self.run_dtors(fr.fn, s2, fr, dt)]
            outs = res
        return outs

    def run_dtors(self, fn, st, fr, vars):
        sts = [st]
        for v in reversed(vars):
            d = self.P.fn.get(v["dtor"])
            loc = ("V", v["id"], fr.num, v["name"])
            nxt = []
            for s in sts:
                if not any(is_under(k, loc) for k in list(s.store) + list(s.alias)):
                    nxt.append(s)  # not constructed on this path
                    continue
                nxt += self.destroy(s, loc, d, fr)
            sts = nxt
        return sts

    def destroy(self, st, loc, d, fr):
        if d is None:
            return [st]
        if d["inrepo"] and d.get("has_body") and not d.get("defaulted") and not d.get("implicit"):
            outs = []
            for v, s in self.inline_call(d, loc, [], st, fr, None):
                outs.append(s)
            return outs
        return [st]

    def ex(self, s, st, fr):
        if s is None or isinstance(s, list) and not s:
            return [("N", None, st)]
        self.steps += 1
        if self.steps > 400000:
            raise AnalysisBroken("interpretation of %s does not end" % fr.fn["qn"])
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            raise AnalysisBroken("statement %s in %s" % (s["k"], fr.fn["qn"]))
        return m(s, st, fr)

    def s_block(self, s, st, fr):
        return self.block(s, st, fr)

    def s_null(self, s, st, fr):
        return [("N", None, st)]

    def s_expr(self, s, st, fr):
        return [("N", None, x) for _, x in self.full(s["e"], st, fr)]

    def full(self, e, st, fr, into=None):
        """full expression: temporaries with destructors are destroyed at its end"""
        mark = self.tempdtor
        self.tempdtor = []
        r = self.ev(e, st, fr)
        mine, self.tempdtor = self.tempdtor, mark
        if mine:
            out = []
            for v, x in r:
                sts = [x]
                for loc, d in reversed(mine):
                    sts = [z for y in sts for z in (self.destroy(y, loc, d, fr) if any(is_under(k, loc) for k in list(y.store) + list(y.alias)) else [y])]
                out += [(v, y) for y in sts]
            r = out
        return r

    def s_decl(self, s, st, fr):
        sts = [st]
        for v in s["vars"]:
            loc = ("V", v["id"], fr.num, v["name"])
            nxt = []
            for c in sts:
                if v.get("static"):
                    self.setup_static(v, loc, c)
                    nxt.append(c)
                    continue
                if v.get("ref"):
                    for val, c2 in self.ev(v["init"], c, fr):
                        c2.refs[(v["id"], fr.num)] = self.as_loc(val, c2, v["t"])
                        nxt.append(c2)
                    continue
                c.clear(loc)
                if v.get("init") is None:
                    c.alias[loc] = ("H", fresh(), v["name"])
                    self.LT[loc] = strip_cv(v["t"])
                    nxt.append(c)
                else:
                    nxt += self.init_into(v["init"], loc, c, fr, v["t"])
            sts = nxt
        return [("N", None, c) for c in sts]

    def setup_static(self, v, loc, st):
        st.alias[loc] = ("G", v["id"])

    def s_if(self, s, st, fr):
        pre = [("N", None, st)]
        for part in (s.get("init"), s.get("var")):
            if part:
                p = part if part.get("k") else {"k": "decl", "vars": [part]}
                pre = [o for k, _, x in pre for o in self.ex(p, x, fr)]
        outs = []
        for _, _, x in pre:
            if s.get("var") and s.get("c") is None:
                v = s["var"]
                v = v if "id" in v else v["vars"][0]
                conds = self.split(self.load(("LV", ("V", v["id"], fr.num, v["name"])), x, v["t"]), x)
            else:
                conds = self.cond(s["c"], x, fr)
            for truth, y in conds:
                outs += self.ex(s.get("a") if truth else s.get("b"), y, fr)
        return self.join_outs(outs)

    def join_outs(self, outs):
        n = [x for k, _, x in outs if k == "N"]
        if len(n) < 2:
            return outs
        return [o for o in outs if o[0] != "N"] + [("N", None, x) for x in self.join(n)]

    def join(self, sts):
        if self.c.merging:
            return self.c.merge(self, sts)
        if len(sts) < 2 or len(sts) <= self.c.apart:
            return sts
        groups = {}
        for s in sts:
            key = (frozenset(s.store.items()), frozenset(s.alias.items()), frozenset(s.refs.items()), id(s.trace))
            groups.setdefault(key, []).append(s)
        out = []
        for g in groups.values():
            if len(g) > 1 and not self.c.traces:
                # local variables that say which case it is
                flags = [v for l, v in g[0].store.items() if l[0] == "V" and len(l) == 4 and v and v[0] in ("lt", "eq", "not")]
                parts = {}
                for s in g:
                    parts.setdefault(tuple(s.decide(v) for v in flags), []).append(s)
            else:
                parts = {0: g}
            for g in parts.values():
                a = g[0]
                for b in g[1:]:
                    a = join_facts(a, b)
                out.append(a)
        if not self.c.traces and len(out) > self.c.maxjoin:
            byref = {}
            for s in out:
                byref.setdefault(frozenset(s.refs.items()), []).append(s)
            out = []
            for g in byref.values():
                a = g[0]
                for b in g[1:]:
                    a = self.blur(a, b)
                out.append(a)
        return out

    def blur(self, a, b):
        """one state for two that differ: what differs becomes unknown"""
        r = join_facts(a, b)
        joined = []
        if self.c.merging:
            # temporaries in which they differ: nothing is known
            for l in (set(a.store) | set(b.store) | set(a.alias) | set(b.alias)):
                if root(l)[0] == "T" and (a.store.get(l) != b.store.get(l) or a.alias.get(l) != b.alias.get(l)):
                    r.store.pop(l, None)
                    r.alias.pop(l, None)
        for l in set(a.alias) | set(b.alias):
            if a.alias.get(l) != b.alias.get(l) and not (self.c.merging and root(l)[0] == "T"):
                r.clear(l)
        for l in set(a.alias) | set(b.alias):
            if a.alias.get(l) != b.alias.get(l) and not (self.c.merging and root(l)[0] == "T"):
                r.alias[l] = ("H", fresh(), None)
        for l in set(a.store) | set(b.store):
            if self.c.merging and root(l)[0] == "T":
                continue
            x, y = a.load(l), b.load(l)
            if any(is_under(l, m) and a.alias.get(m) != b.alias.get(m) for m in set(a.alias) | set(b.alias)):
                r.store.pop(l, None)
            if x == y:
                r.store[l] = x
                continue
            v = ("ap", "join", ("n", fresh()))
            t = TYPES.get(x) or TYPES.get(y) or self.LT.get(l)
            if t:
                TYPES[v] = t
            la, ha, na, aa = a.bounds(x)
            lb, hb, nb, ab = b.bounds(y)
            r.store[l] = v
            r.alias.pop(l, None)
            low = min(la, lb) if la is not None and lb is not None else None
            if (low is None or low < 0) and not self.c.traces and not is_ptr(t or "") and x and y and x[0] in ("lin", "ap", "phi", "op", "rd", "i") and a.le(I0, x) and b.le(I0, y):
                low = 0
            r._setdom(v, lo=low,
                      hi=max(ha, hb) if ha is not None and hb is not None else None,
                      ne=(0,) if a.nonnull(x) and b.nonnull(y) else (),
                      al=(aa | ab) if aa is not None and ab is not None else None)
            if INTS.get(strip_cv(t or "")) and t != "bool":
                joined.append((v, x, y))
        # how the new values relate to each other and to values that stayed the same
        if len(joined) <= 12 and not self.c.traces:
            for i, (v, x, y) in enumerate(joined):
                for w, x2, y2 in joined[i + 1:]:
                    for p, q, k in ((x, x2, 0), (x2, x, 1)):
                        if a.le(p, q) and b.le(*((y, y2) if not k else (y2, y))):
                            r.assume(mk_lt(*((w, v) if not k else (v, w))), False)
        return r

    def s_return(self, s, st, fr):
        if s.get("e") is None:
            return [("R", None, st)]
        ret = self.P.fn[fr.fn["id"]]["ret"] if fr.fn["id"] in self.P.fn else fr.fn["ret"]
        if is_ref(ret):
            return [("R", self.lvalue(v, x, ret), x) for v, x in self.full(s["e"], st, fr)]
        if self.is_class(ret):
            loc = ("T", fresh())
            return [("R", ("LV", loc), x) for x in self.init_into(s["e"], loc, st, fr, ret)]
        out = []
        for v, x in self.full(s["e"], st, fr):
            out.append(("R", self.load(v, x, ret) if v is not None else None, x))
        return out

    def lvalue(self, v, st, t):
        return ("LV", self.as_loc(v, st, t))

    def as_loc(self, v, st, t):
        if is_lv(v):
            return v[1]
        loc = ("T", fresh())
        if v is not None:
            self.setv(st, loc, v, t)
        return loc

    def s_break(self, s, st, fr):
        return [("B", None, st)]

    def s_continue(self, s, st, fr):
        return [("C", None, st)]

    def s_goto(self, s, st, fr):
        return [("G", s["label"], st)]

    def s_label(self, s, st, fr):
        return self.ex(s["s"], st, fr)

    def s_case(self, s, st, fr):
        return self.ex(s["s"], st, fr)

    s_default = s_case

    def s_switch(self, s, st, fr):
        pre = [st]
        for part in (s.get("init"), s.get("var")):
            if part:
                p = part if part.get("k") else {"k": "decl", "vars": [part]}
                pre = [x for y in pre for _, _, x in self.ex(p, y, fr)]
        # flatten
        flat, entries, default = [], [], None
        body = s["b"]["b"] if s["b"].get("k") == "block" else [s["b"]]
        for x in body:
            labels = []
            while x.get("k") in ("case", "default"):
                if x["k"] == "default":
                    labels.append(None)
                else:
                    labels.append((num(x["v"]), num(x["hi"]) if x.get("hi") is not None else num(x["v"])))
                x = x["s"]
            for l in labels:
                if l is None:
                    default = len(flat)
                else:
                    entries.append((l, len(flat)))
            flat.append(x)
        groups, allv = {}, set()
        for (lo, hi), pos in entries:
            if not isinstance(hi, int):
                hi = lo
            vs = set(range(lo, hi + 1))
            groups.setdefault(pos, set()).update(vs)
            allv |= vs
        outs = []
        for st0 in pre:
            for v, x in self.full(s["c"], st0, fr):
                t = self.load(v, x, s["c"].get("t"))
                todo = []
                for pos, vs in groups.items():
                    y = x.copy()
                    if len(vs) == 1:
                        ok = y.assume(mk_eq(t, ("i", next(iter(vs)))), True)
                    elif is_const(t):
                        ok = t[1] in vs
                    else:
                        ok = y.set_allowed(t, vs)
                    if ok:
                        todo.append((pos, y))
                y = x.copy()
                ok = True
                if is_const(t):
                    ok = t[1] not in allv
                else:
                    ok = y._setdom(t, ne=allv)
                if ok:
                    todo.append((default if default is not None else len(flat), y))
                for pos, y in todo:
                    for k, p, z in self.ex_seq(flat[pos:], y, fr):
                        outs.append(("N", None, z) if k == "B" else (k, p, z))
        # locals of the switch block
        return self.join_outs(outs)

    def s_try(self, s, st, fr):
        sink = []
        self.sinks.append(sink)
        outs = self.ex(s["b"], st, fr)
        self.sinks.pop()
        for o in [o for o in outs if o[0] == "T"]:
            outs.remove(o)
            sink.append((o[1], o[2]))
        if self.c.merging:
            byexc = {}
            for exc, x in sink:
                byexc.setdefault(exc, []).append(x)
            sink = [(exc, x) for exc, xs in byexc.items() for x in self.join(xs)]
        for exc, x in sink:
            done = False
            for h in s["handlers"]:
                m = self.c.catches(self, exc, h) if hasattr(self.c, "catches") else True
                if m is False:
                    continue
                y = x.copy()
                v = h.get("var")
                if v:
                    loc = ("P", ("ap", "exc", ("n", fresh())))
                    y.refs[(v["id"] if isinstance(v, dict) else v, fr.num)] = loc
                self.event(y, "catch", h.get("t"), exc)
                self.c.caught(self, y, fr, h, exc)
                m0 = len(self.sinks[-1]) if self.sinks else 0
                res = self.ex(h["b"], y, fr)
                # 'throw;' continues with the exception that was caught
                outs += [(k, exc, z) if k == "T" and p == ("rethrow",) else (k, p, z) for k, p, z in res]
                if self.sinks:
                    self.sinks[-1][m0:] = [(exc if q == ("rethrow",) else q, z) for q, z in self.sinks[-1][m0:]]
                if m is True:
                    done = True
                    break
            if not done:
                outs.append(("T", exc, x))
        return outs

    def s_opaque_stmt(self, s, st, fr):
        raise AnalysisBroken("statement %s in %s" % (s.get("cls"), fr.fn["qn"]))

    # ------------------------------------------------------------ loops
    def s_while(self, s, st, fr):
        def step(x):
            backs, outs = [], []
            pre = [x]
            if s.get("var"):
                v = s["var"]
                v = v if "id" in v else v["vars"][0]
                pre = [y for _, _, y in self.ex({"k": "decl", "vars": [v]}, x, fr)]
            for p in pre:
                if s.get("var"):
                    cs = self.split(self.load(("LV", ("V", v["id"], fr.num, v["name"])), p, v["t"]), p)
                else:
                    cs = self.cond(s["c"], p, fr)
                for truth, y in cs:
                    if not truth:
                        outs.append(("X", None, y))
                    else:
                        self.loop_body(s["b"], None, y, fr, backs, outs)
            return backs, outs

        return self.loop(s, st, fr, step)

    def s_do(self, s, st, fr):
        def step(x):
            backs, outs, ends = [], [], []
            self.loop_body(s["b"], None, x, fr, ends, outs)
            for y in self.join(ends):
                for truth, z in self.cond(s["c"], y, fr):
                    if truth:
                        backs.append(z)
                    else:
                        outs.append(("X", None, z))
            return backs, outs

        if s["c"].get("cv") == 0:
            outs = self.ex(s["b"], st, fr)
            return [("N", None, x) if k in ("B", "C") else (k, p, x) for k, p, x in outs]
        return self.loop(s, st, fr, step)

    def s_for(self, s, st, fr):
        pre = self.ex(s.get("init"), st, fr) if s.get("init") else [("N", None, st)]
        outs = []
        for _, _, x0 in pre:
            def step(x):
                backs, outs = [], []
                if s.get("c") is None:
                    cs = [(True, x)]
                else:
                    cs = self.cond(s["c"], x, fr)
                for truth, y in cs:
                    if not truth:
                        outs.append(("X", None, y))
                    else:
                        self.loop_body(s["b"], s.get("inc"), y, fr, backs, outs)
                return backs, outs

            outs += self.loop(s, x0, fr, step)
        return outs

    def loop_body(self, b, inc, y, fr, backs, outs):
        for k, p, z in self.ex(b, y, fr):
            if k in ("N", "C"):
                if inc is None:
                    backs.append(z)
                else:
                    backs += [w for _, w in self.full(inc, z, fr)]
            elif k == "B":
                outs.append(("X", None, z))
            else:
                outs.append((k, p, z))

    def s_rangefor(self, s, st, fr):
        outs = []
        for v, x in self.full(s["range"], st, fr):
            cont = self.as_loc(v, x, s["range"].get("t", ""))
            outs += self.foreach(s, x, fr, cont, s["range"].get("t", ""),
                                 lambda y, eloc, backs, o: self.rf_body(s, y, fr, eloc, backs, o))
        return outs

    def rf_body(self, s, y, fr, eloc, backs, outs):
        v = s["var"]
        v = v["vars"][0] if "vars" in v else v
        if v.get("ref") or v["t"].endswith("&"):
            y.refs[(v["id"], fr.num)] = eloc
            sts = [y]
        else:
            loc = ("V", v["id"], fr.num, v["name"])
            y.clear(loc)
            if self.is_class(v["t"]):
                y.copy_obj(loc, eloc)
            else:
                self.setv(y, loc, y.load(eloc, v["t"]), v["t"])
            sts = [y]
        for z in sts:
            self.loop_body(s["b"], None, z, fr, backs, outs)

    def foreach(self, node, st, fr, cont, ctype, body):
        """index loop over a container"""
        idx = ("T", fresh())
        self.setv(st, idx, I0, "unsigned long")

        def step(x):
            backs, outs = [], []
            i = x.load(idx, "unsigned long")
            n = self.models.size(self, x, cont, ctype)
            if n is None:
                n = self.fresh_ap("size", "unsigned long")
                x._setdom(n, lo=0, hi=2 ** 31 - 2)  # tokens of one text
            for truth, y in self.split(mk_lt(i, n), x):
                if not truth:
                    outs.append(("X", None, y))
                    continue
                eloc = ("I", cont, i)
                bs = []
                body(y, eloc, bs, outs)
                for b in bs:
                    self.setv(b, idx, add(b.load(idx, "unsigned long"), I1), "unsigned long")
                    backs.append(b)
            return backs, outs

        return self.loop(node, st, fr, step, rng=cont)

    def loop(self, node, st, fr, step, rng=None):
        mark = fresh()
        lid = fresh()
        L = Loop()
        L.id, L.fn, L.node, L.entry, L.range = lid, fr.fn, node, st, rng
        L.trial = self.silent > 0
        L.line = node.get("l") or (node.get("c") or {}).get("l") or (node.get("range") or {}).get("l")
        phis = {}   # loc -> (phi, type)
        havocs = {}  # loc -> H
        nph = {}

        def mkhead(cands):
            h = st.copy()
            for l in sorted(havocs, key=lambda l: len(repr(l))):
                h.clear(l)
                if l[0] == "I" and l[2] == "*":
                    for d in (h.store, h.alias):
                        for k in [k for k in d if elem_of(k, l[1])]:
                            del d[k]
                    h.store.pop(F(l[1], "$q"), None)
                h.alias[l] = havocs[l]
            for l, (p, t) in phis.items():
                h.store[l] = p
            feasible = True
            for c in cands:
                feasible = apply_cand(h, c) and feasible
            L.start = h.trace
            if self.c.traces:
                h.trace = Trace(h.trace, ("loop", lid))
            L.head = h
            return h.copy()

        # what does the loop modify?
        self.silent += 1
        saved_cmp, self.cmp = self.cmp, set()
        saved_td = self.tempdtor
        try:
            for rnd in range(14):
                self.sinks.append([])
                backs, outs = step(mkhead([]))
                self.sinks.pop()
                new = False
                for b in backs:
                    for l, kind in self.modified(L.head, b, mark, phis, havocs):
                        if kind == "s" and l not in phis:
                            t = self.LT.get(l) or TYPES.get(b.store.get(l)) or TYPES.get(st.store.get(l)) or self.guess_type(l)
                            p = ("phi", fresh(), show(l))
                            if t:
                                TYPES[p] = t
                            phis[l] = (p, t)
                            new = True
                        elif kind == "a" and l not in havocs:
                            havocs[l] = ("H", fresh(), show(l) + "~")
                            new = True
                if not new:
                    break
            else:
                raise AnalysisBroken("loop in %s does not stabilise" % fr.fn["qn"])
            cands = self.candidates(st, phis, self.cmp, mark)
            facts = []
            for l, (p, t) in phis.items():
                if backs and all(divides(b.load(l, t), p) and b.nonnull(b.load(l, t)) for b in backs):
                    for l2, (q, t2) in phis.items():
                        ds = [lin_comb(to_lin(b.load(l2, t2)), 1, to_lin(q), -1) for b in backs]
                        if all(not d[1] and 0 <= d[0] <= 1024 for d in ds):
                            z = lin_comb(to_lin(q), 1, to_lin(st.load(l2, t2)), -1)
                            facts.append(("le", (z[0] - 128 * max(d[0] for d in ds), z[1])))
            for rnd in range(40):
                head = mkhead(cands)
                # entry must imply candidates
                cands2 = [c for c in cands if holds(st, c, phis, None)]
                if len(cands2) != len(cands):
                    cands = cands2
                    continue
                self.sinks.append([])
                for c in facts:
                    apply_cand(head, c)
                backs, outs = step(head)
                self.sinks.pop()
                keep = [c for c in cands if all(holds(b, c, phis, b) for b in backs)]
                if len(keep) == len(cands):
                    break
                cands = keep
        finally:
            self.silent -= 1
            outer = self.cmp
            self.cmp = saved_cmp
            if self.cmp is not None:
                self.cmp |= outer
            self.tempdtor = saved_td
        L.cands = cands
        L.phis = {l: (p, t, st.load(l, t)) for l, (p, t) in phis.items()}
        L.havocs = havocs
        backs, outs = step(mkhead(cands + facts))
        for b in backs:
            for l in phis:
                self.used(b.store.get(l), b, None, None)
        L.backs = backs
        L.exits = [x for k, p, x in outs if k == "X"]
        L.others = [o for o in outs if o[0] != "X"]
        self.loops[lid] = L
        res = []
        for k, p, x in outs:
            self.event(x, "exit", lid)
            res.append(("N", None, x) if k == "X" else (k, p, x))
        return self.join_outs(res)

    def guess_type(self, l):
        if l[0] == "F" and l[2] == "$n":
            return "unsigned long"
        return None

    def modified(self, head, back, mark, phis, self_havocs=()):
        out = []

        def visible(l):
            r = root(l)
            if r[0] == "T":
                return r[1] < mark
            if r[0] == "V":
                return r[2] < mark
            if r[0] == "P":
                return not (r[1][0] == "ap" and not invariant(r[1], mark))
            return True

        def elem(l):
            """outermost element access with an index that is not fixed"""
            x, found = l, None
            while x[0] in ("F", "I"):
                if x[0] == "I" and x[2] != "*" and (x[1][0] != "P" or not invariant(x[2], mark)):
                    found = x[1]
                x = x[1]
            return found

        for k in set(head.alias) | set(back.alias):
            if head.alias.get(k) != back.alias.get(k) and visible(k):
                c = elem(k)
                if c is not None:
                    out.append((("I", c, "*"), "a"))
                else:
                    # a scalar that lost its value counts as scalar
                    out.append((k, "a"))
        for k in set(head.store) | set(back.store):
            if not visible(k):
                continue
            a, b = head.store.get(k), back.store.get(k)
            if a == b:
                continue
            if a is None:
                a = head.load(k)
            if b is None:
                b = back.load(k)
            if a == b:
                continue
            c = elem(k)
            if c is not None:
                out.append((("I", c, "*"), "a"))
            else:
                out.append((k, "s"))
        # a part of an object that changes as a whole needs no entry of its own
        whole = {l for l, kind in out if kind == "a"} | {l for l in head.alias if l in self_havocs}
        res = []
        for l, kind in dict.fromkeys(out):
            x = l
            covered = False
            while x[0] in ("F", "I"):
                x = x[1]
                if x in whole:
                    covered = True
                    break
            if not covered:
                res.append((l, kind))
        return res

    def candidates(self, st, phis, cmp, mark):
        c = []
        P = [(l, p, t, st.load(l, t)) for l, (p, t) in phis.items()]
        ints = [x for x in P if INTS.get(x[2] or "")]
        bools = [x for x in P if x[2] == "bool"]
        nums = [x for x in ints if x[2] != "bool" or self.c.relate]
        related = self.c.related if self.c.relate else None
        phset = {p for _, p, _, _ in P}
        for l, p, t, e in P:
            if is_ptr(t or "") or t is None or True:
                if not INTS.get(t or ""):
                    c.append(("nonnull", p))
            if INTS.get(t or ""):
                c.append(("le", lin_comb(to_lin(e), 1, to_lin(p), -1)))
                c.append(("le", lin_comb(to_lin(p), 1, to_lin(e), -1)))
        for a in bools:
            # a pointer that is not null as long as the loop goes on
            if a[3] != I0:
                for l, p, t, e in P:
                    if is_ptr(t or "") and st.nonnull(e):
                        c.append(("imp", a[1], 0, (1, ((p, -1),))))
        for a in nums:
            for b in nums:
                if a is b or related and not related(a[0], a[2], b[0], b[2]):
                    continue
                d = lin_comb(to_lin(a[3]), 1, to_lin(b[3]), -1)
                # a - b <= entry(a) - entry(b)
                base = lin_comb(lin_comb(to_lin(a[1]), 1, to_lin(b[1]), -1), 1, d, -1)
                sm = lin_comb(to_lin(a[3]), 1, to_lin(b[3]), 1)
                sm = lin_comb(lin_comb(to_lin(a[1]), 1, to_lin(b[1]), 1), 1, sm, -1)
                if len(sm[1]) <= 4:
                    c.append(("le", sm))
                    c.append(("le", lin_comb(sm, -1, (0, ()), 0)))
                if len(base[1]) <= 4:
                    c.append(("le", base))
                    for q in bools:
                        if q[3] == I0:
                            c.append(("le", lin_comb(base, 1, to_lin(q[1]), 1)))
        for a, b in cmp:
            # a special value (like npos), or what is known of the value at the entry
            for l, p, t, e in P:
                if a == p and is_const(b) and not is_const(e) and not self.c.traces:
                    for r in st.rels:
                        if e in [x for x, _ in r[1]]:
                            c.append(("imp", p, b[1], lin_comb((r[0], tuple(((p if x == e else x), k) for x, k in r[1])), 1, (0, ()), 0)))
            d = lin_comb(to_lin(a), 1, to_lin(b), -1)
            ph = [t for t, k in d[1] if t in phset]
            if not ph:
                continue
            bad = False
            for t, k in d[1]:
                if t in phset:
                    continue
                if not invariant(t, mark):
                    bad = True
            if bad or len(d[1]) > 3:
                continue
            for off in (0, -1, 1):
                c.append(("le", (d[0] + off, d[1])))
                n = lin_comb(d, -1, (0, ()), 0)
                c.append(("le", (n[0] + off, n[1])))
        seen, out = set(), []
        for x in c:
            if x not in seen:
                seen.add(x)
                out.append(x)
        return out

    # ------------------------------------------------------------ conditions
    def split(self, t, st):
        if t is None:
            return [(True, st.copy()), (False, st)]
        if t[0] == "i":
            return [(t[1] != 0, st)]
        if self.cmp is not None:
            x = t[1] if t[0] == "not" else t
            if x[0] in ("lt", "eq"):
                self.cmp.add((x[1], x[2]))
        a = st.copy()
        ok1 = a.assume(t, True)
        b = st if ok1 is False else st.copy()
        ok2 = b.assume(t, False)
        out = []
        if ok1:
            out.append((True, a))
        if ok2:
            out.append((False, b))
        return out

    def cond(self, e, st, fr):
        out = []
        for v, x in self.full(e, st, fr):
            out += self.split(self.load(v, x, e.get("t")), x)
        return out

    # ------------------------------------------------------------ expressions
    def load(self, v, st, t=None):
        if is_lv(v):
            loc = v[1]
            if t is not None and strip_cv(noref(t)).endswith("]"):
                return ("addr", loc)  # array decays
            return self.used(st.load(loc, t), st, None, None)
        if v is not None and v in self.wraps:
            return self.used(v, st, None, None)
        return v

    def used(self, v, st, e, fr):
        """a value that wrapped around is an error once it is read"""
        w = self.wraps.get(v)
        if w is not None:
            self.obl("uwrap", False, st, w[1], w[0], ("step", v))
        return v

    def ev(self, e, st, fr):
        """[(value, state)]; value is ('LV', loc), a term or None"""
        if "cv" in e and e.get("k") not in ("var", "str", "assign", "call") and not self.is_class(e.get("t", "int")):
            return [(("i", num(e["cv"])), st)]
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise AnalysisBroken("expression %s in %s" % (e["k"], fr.fn["qn"]))
        return m(e, st, fr)

    def evr(self, e, st, fr):
        return [(self.load(v, x, e.get("t")), x) for v, x in self.ev(e, st, fr)]

    def fresh_ap(self, name, t=None, *args):
        v = ("ap", name, ("n", fresh())) + args
        if t is not None:
            TYPES[v] = strip_cv(noref(t))
        return v

    def e_int(self, e, st, fr):
        return [(("i", num(e["v"])), st)]

    def e_null(self, e, st, fr):
        return [(I0, st)]

    def e_float(self, e, st, fr):
        return [(("ap", "float", ("n", str(e.get("v")))), st)]

    def e_str(self, e, st, fr):
        return [(("str", e["v"]), st)]

    def e_fn(self, e, st, fr):
        return [(("fn", e.get("fn") or e.get("id")), st)]

    def e_this(self, e, st, fr):
        f = fr
        while f.lam and f.this is None and f.parent:
            f = f.parent
        if fr.this[0] == "P":
            return [(fr.this[1], st)]
        return [(("addr", fr.this), st)]

    def varloc(self, e, st, fr):
        f = fr
        while f is not None:
            r = st.refs.get((e["id"], f.num))
            if r is not None:
                return r
            if not f.lam:
                break
            f = None
        return ("V", e["id"], fr.num, e["name"])

    def e_var(self, e, st, fr):
        vk = e.get("vk")
        if vk == "static_local":
            return [(("LV", ("G", e["id"])), st)]
        if vk == "global":
            if "cv" in e:
                return [(("i", num(e["cv"])), st)]
            g = self.P.globals.get(e.get("id"))
            if g and g.get("init") and (g["t"].startswith("const ") and not is_ptr(g["t"]) or strip_cv(g["t"]) != g["t"] and is_ptr(g["t"])):
                i = g["init"]
                while i["k"] in ("icast", "cast", "defarg"):
                    i = i["e"]
                if i["k"] == "str" and is_ptr(g["t"]):
                    return [(("str", i["v"]), st)]
            return [(("LV", ("G", e.get("id") or e.get("qn") or e["name"])), st)]
        return [(("LV", self.varloc(e, st, fr)), st)]

    def deref(self, p, st, fr, e, kind="deref"):
        """location a pointer term points to"""
        self.obl(kind, st.nonnull(p), st, fr, e, p)
        if p[0] == "addr":
            return p[1]
        if p[0] == "lin":
            # pointer arithmetic
            for t, k in p[2]:
                if k == 1 and (t[0] == "addr" or is_ptr(TYPES.get(t, ""))):
                    rest = add(p, t, -1)
                    b = t[1] if t[0] == "addr" else ("P", t)
                    return ("I", b, rest)
        if not st.nonnull(p):
            st.assume(p, True)
        return ("P", p)

    def e_member(self, e, st, fr):
        out = []
        for v, x in self.ev(e["base"], st, fr):
            if e.get("arrow"):
                p = self.load(v, x, e["base"].get("t"))
                loc = self.deref(p, x, fr, e)
            else:
                loc = self.as_loc(v, x, e["base"].get("t", ""))
            r = self.P.records.get(e.get("rec"))
            if r is not None and r.get("union") or "union at" in e.get("rec", ""):
                self.union_access(loc, e, x, fr)
            if (e.get("rec"), e["f"]) in self.nn_fields:
                x.assume(x.load(F(loc, e["f"]), e.get("t")), True)
            ft = self.ref_field(e)
            if ft:
                p = x.load(F(loc, e["f"]))
                out.append((("LV", p[1] if p[0] == "addr" else ("P", p)), x))
                x.dom.setdefault(p, (1, None, frozenset((0,)), None))
            elif e.get("anon"):
                out.append((("LV", loc), x))
            else:
                out.append((("LV", F(loc, e["f"])), x))
        return out

    def ref_field(self, e):
        r = self.P.records.get(e.get("rec"))
        for f in (r or {}).get("fields", []):
            if f["name"] == e["f"]:
                return is_ref(f["t"])
        return False

    NODEK = {"element": {1, 6}, "text": {2, 3, 4, 5}, "document": {0}}

    def union_access(self, loc, e, st, fr):
        if e["f"] not in self.NODEK or loc[0] != "F":
            return
        tt = st.load(F(loc[1], "type"), "GumboNodeType")
        vs = st.values(tt)
        self.obl("kind", vs is not None and vs <= self.NODEK[e["f"]], st, fr, e, (e["f"], loc[1]))

    def e_index(self, e, st, fr):
        out = []
        for b, x in self.ev(e["base"], st, fr):
            for i, y in self.evr(e["idx"], x, fr):
                bt = e["base"].get("t", "")
                p = self.load(b, y, bt)
                if p is not None and p[0] == "addr":
                    base = p[1]
                elif p is not None and p[0] == "str":
                    out.append((self.fresh_ap("char", e.get("t")), y))
                    continue
                else:
                    base = ("P", p)
                ok = self.check_index(p, base, i, y, fr, e, bt)
                if base[0] == "P" and not (ok and p[0] == "rd" and p[1][0] == "F" and p[1][2] == "data"):
                    self.obl("deref", y.nonnull(p), y, fr, e, p)
                if ok and base in self.lens:
                    # an argument of the program
                    y.assume(y.load(("I", base, i), "char *"), True)
                out.append((("LV", ("I", base, i)), y))
        return out

    def check_index(self, p, base, i, st, fr, e, bt=""):
        n = None
        if p[0] == "rd" and p[1][0] == "F" and p[1][2] == "data":
            n = st.load(F(p[1][1], "length"), "unsigned int")
        elif bt.endswith("]"):
            try:
                n = ("i", int(bt[bt.rindex("[") + 1:-1]))
            except ValueError:
                n = None
        if n is None:
            d = self.models.known_length(self, st, base)
            n = d
        ok = n is not None and st.le(I0, i) and st.lt(i, n)
        self.obl("bounds", ok, st, fr, e, (i, n))
        return ok

    def e_unop(self, e, st, fr):
        op = e["op"]
        out = []
        if op == "!":
            for v, x in self.evr(e["e"], st, fr):
                out.append((mk_not(self.truth(v)), x))
            return out
        if op == "*":
            for v, x in self.evr(e["e"], st, fr):
                out.append((("LV", self.deref(v, x, fr, e)), x))
            return out
        if op == "&":
            for v, x in self.ev(e["e"], st, fr):
                if is_lv(v):
                    loc = v[1]
                    out.append((loc[1] if loc[0] == "P" else ("addr", loc), x))
                else:
                    out.append((v if v and v[0] == "fn" else self.fresh_ap("addr", e.get("t")), x))
            return out
        if op in ("++", "--", "++post", "--post", "post++", "post--"):
            post = "post" in op
            sign = 1 if "++" in op else -1
            for v, x in self.ev(e["e"], st, fr):
                loc = self.as_loc(v, x, e.get("t", ""))
                old = x.load(loc, e["e"].get("t"))
                t = e["e"].get("t", "")
                old = self.used(old, x, e, fr)
                r = INTS.get(strip_cv(noref(t)))
                if r and r[0] == 0 and not is_const(old):
                    # decrement of 0 / increment of the maximum: kept apart
                    edge = r[1] if sign > 0 else 0
                    for truth, y in self.split(mk_eq(old, ("i", edge)), x):
                        if truth and sign > 0 and self.c.ideal:
                            continue
                        if truth:
                            new = self.typed(("op", "w" + op[:1], old, ("n", fresh())), t)
                            y._setdom(new, al=(r[0] if sign > 0 else r[1],))
                            self.wraps[new] = (e, fr)
                        else:
                            new = add(old, ("i", sign))
                            self.obl("uwrap", True, y, fr, e, ("step", old))
                        self.setv(y, loc, new, t)
                        out.append((old if post else ("LV", loc), y))
                    continue
                new = self.arith(e, "+" if sign > 0 else "-", old, I1, t, x, fr)
                self.setv(x, loc, new, t)
                out.append((old if post else ("LV", loc), x))
            return out
        for v, x in self.evr(e["e"], st, fr):
            if op == "-":
                out.append((self.arith(e, "-", I0, v, e.get("t", ""), x, fr), x))
            elif op == "+":
                out.append((v, x))
            else:
                out.append((self.typed(("op", op, v), e.get("t")), x))
        return out

    def typed(self, t, ty):
        if ty is not None and t not in TYPES:
            TYPES[t] = strip_cv(noref(ty))
        return t

    def truth(self, v):
        if v is None:
            return self.fresh_ap("bool", "bool")
        if v[0] == "i":
            return I1 if v[1] else I0
        if v[0] in ("eq", "lt", "not"):
            return v
        if TYPES.get(v) == "bool":
            return v
        return mk_not(mk_eq(v, I0))

    def e_binop(self, e, st, fr):
        op = e["op"]
        if op in ("&&", "||"):
            out = []
            for v, x in self.evr(e["l_"], st, fr):
                for truth, y in self.split(self.truth(v), x):
                    if truth == (op == "||"):
                        out.append((I1 if truth else I0, y))
                    else:
                        out += [(self.truth(w), z) for w, z in self.evr(e["r_"], y, fr)]
            return out
        if op == ",":
            return [r for _, x in self.ev(e["l_"], st, fr) for r in self.ev(e["r_"], x, fr)]
        out = []
        for a, x in self.evr(e["l_"], st, fr):
            for b, y in self.evr(e["r_"], x, fr):
                out.append((self.binop(e, op, a, b, e["l_"].get("t", ""), e["r_"].get("t", ""), e.get("t", ""), y, fr), y))
        return out

    def binop(self, e, op, a, b, ta, tb, t, st, fr):
        if a is None or b is None:
            return self.fresh_ap("v", t)
        if op == "==":
            return mk_eq(a, b)
        if op == "!=":
            return mk_not(mk_eq(a, b))
        if op == "<":
            return mk_lt(a, b)
        if op == ">":
            return mk_lt(b, a)
        if op == "<=":
            return mk_not(mk_lt(b, a))
        if op == ">=":
            return mk_not(mk_lt(a, b))
        if is_ptr(ta) or is_ptr(tb):
            if op == "+":
                return self.typed(add(a, b), t)
            if op == "-":
                if is_ptr(tb):
                    return self.typed(add(a, b, -1), t)
                return self.typed(add(a, b, -1), t)
        return self.arith(e, op, a, b, t, st, fr)

    def arith(self, e, op, a, b, t, st, fr):
        """arithmetic in type t"""
        t = strip_cv(noref(t))
        r = INTS.get(t)
        if is_ptr(t):
            return self.typed(add(a, b, 1 if op == "+" else -1), t)
        if op in ("+", "-"):
            res = add(a, b, 1 if op == "+" else -1)
        elif op == "*" and (is_const(a) or is_const(b)):
            res = scale(b, a[1]) if is_const(a) else scale(a, b[1])
        elif op in ("/", "%"):
            self.obl("div", st.nonnull(b), st, fr, e, b)
            if r and r[0] < 0:
                self.obl("divovf", not (st.decide(mk_eq(b, ("i", -1))) is not False and st.decide(mk_eq(a, ("i", r[0]))) is not False), st, fr, e, (a, b))
            if is_const(a) and is_const(b) and b[1]:
                q = abs(a[1]) // abs(b[1]) * (1 if (a[1] < 0) == (b[1] < 0) else -1)
                return ("i", q if op == "/" else a[1] - q * b[1])
            v = self.typed(("op", op, a, b), t)
            la, ha, _, _ = st.bounds(a)
            if la is not None and la >= 0 and ha is not None:
                st._setdom(v, lo=0, hi=ha)
            return v
        elif is_const(a) and is_const(b) and op in ("&", "|", "^", "<<", ">>"):
            f = {"&": lambda: a[1] & b[1], "|": lambda: a[1] | b[1], "^": lambda: a[1] ^ b[1],
                 "<<": lambda: a[1] << b[1], ">>": lambda: a[1] >> b[1]}[op]
            return ("i", f())
        elif op in ("&", "|", "^", "<<", ">>"):
            return self.typed(("op", op, a, b), t)
        else:
            res = self.typed(("op", op, a, b), t)
            if r:
                self.obl("sovf" if r[0] < 0 else "uwrap", False, st, fr, e, (op, a, b))
            return res
        if r is None:
            return res
        lo, hi = r
        if op in ("+", "-") and res[0] == "lin" and sum(k for _, k in res[2]) == 0 and all(is_ptr(TYPES.get(x, "")) for x, _ in res[2]):
            return self.typed(res, t)  # distance of two pointers
        okhi = st.le(res, ("i", hi))
        oklo = st.le(("i", lo), res)
        ok = okhi and oklo
        if lo < 0:
            self.obl("sovf", ok, st, fr, e, (op, a, b))
            if not ok:
                return res
            return res
        self.obl("uwrap", ok, st, fr, e, (op, a, b, okhi))
        if ok or oklo and self.c.ideal:
            return res
        return self.typed(("op", "w" + op, a, b), t)

    def e_assign(self, e, st, fr):
        op = e["op"]
        out = []
        lt = e["l_"].get("t", "")
        if self.is_class(lt) and op == "=":
            for v, x in self.ev(e["l_"], st, fr):
                loc = self.as_loc(v, x, lt)
                for w, y in self.ev(e["r_"], x, fr):
                    if is_lv(w):
                        y.copy_obj(loc, w[1])
                    else:
                        y.havoc(loc)
                    out.append((("LV", loc), y))
            return out
        # right operand first (C++17)
        for b, x in self.evr(e["r_"], st, fr):
            for v, y in self.ev(e["l_"], x, fr):
                loc = self.as_loc(v, y, lt)
                if op == "=":
                    new = b
                else:
                    old = y.load(loc, lt)
                    ct = e.get("ct") or lt
                    new = self.binop(e, op[:-1], self.conv(old, lt, ct, y, fr, e), b, ct, e["r_"].get("t", ""), ct, y, fr)
                    new = self.conv(new, ct, lt, y, fr, e)
                if new is None:
                    new = self.fresh_ap("v", lt)
                if e["l_"].get("k") == "member":
                    self.c.field_write(self, y, fr, e, new)
                self.setv(y, loc, new, lt)
                out.append((("LV", loc), y))
        return out

    def e_cond(self, e, st, fr):
        out = []
        for truth, x in self.cond(e["c"], st, fr):
            out += self.ev(e["a"] if truth else e["b"], x, fr)
        return out

    def e_elvis(self, e, st, fr):
        out = []
        for v, x in self.evr(e["c"], st, fr):
            for truth, y in self.split(self.truth(v), x):
                out += [(v, y)] if truth else self.ev(e["b"], y, fr)
        return out

    def conv(self, v, frm, to, st, fr, e):
        frm, to = strip_cv(noref(frm)), strip_cv(noref(to))
        if v is None or frm == to:
            return v
        if to == "bool":
            return self.truth(v)
        r = INTS.get(to)
        if to in self.P.enums or frm in self.P.enums and r is None:
            return v
        if r is None:
            return v
        if to == "unsigned char" and frm in ("char", "signed char"):
            return self.typed(("op", "conv:" + to, v), to)
        if frm in ("float", "double", "long double"):
            return self.fresh_ap("conv", to)
        if is_const(v):
            if r[0] <= v[1] <= r[1]:
                return v
            w = r[1] - r[0] + 1
            x = (v[1] - r[0]) % w + r[0]
            self.obl("narrow", False, st, fr, e, (v, frm, to))
            return ("i", x)
        src = INTS.get(frm)
        if src and src[0] >= r[0] and src[1] <= r[1]:
            return v
        if frm in self.P.enums and (r[1] - r[0]) >= 2 ** 31:
            return v
        if v[0] in ("eq", "lt", "not"):
            return v
        ok = st.le(("i", r[0]), v) and st.le(v, ("i", r[1]))
        self.obl("narrow", ok, st, fr, e, (v, frm, to))
        if ok:
            return v
        return self.typed(("op", "conv:" + to, v), to)

    def e_icast(self, e, st, fr):
        if e.get("ck") in ("ToVoid",):
            return [(None, x) for _, x in self.ev(e["e"], st, fr)]
        if self.is_class(e.get("t", "")):
            return self.ev(e["e"], st, fr)
        return [(self.conv(v, e["e"].get("t", ""), e.get("t", ""), x, fr, e), x) for v, x in self.evr(e["e"], st, fr)]

    def e_cast(self, e, st, fr):
        if e.get("ck") == "ToVoid":
            return [(None, x) for _, x in self.ev(e["e"], st, fr)]
        if e.get("ck") in ("NoOp", "LValueBitCast", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "ConstructorConversion", "UserDefinedConversion", "Dynamic") or self.is_class(e.get("t", "")):
            return self.ev(e["e"], st, fr)
        return [(self.conv(v, e["e"].get("t", ""), e.get("t", ""), x, fr, e), x) for v, x in self.evr(e["e"], st, fr)]

    def e_defarg(self, e, st, fr):
        return self.ev(e["e"], st, fr)

    def e_stdinit(self, e, st, fr):
        return self.ev(e["e"], st, fr)

    def e_bindingval(self, e, st, fr):
        return self.ev(e["e"], st, fr)

    def e_sizeof(self, e, st, fr):
        return [(("i", num(e["cv"])) if "cv" in e else self.fresh_ap("sizeof", "unsigned long"), st)]

    def e_init(self, e, st, fr):
        t = e.get("t", "")
        if not self.is_class(t):
            if e.get("args"):
                return self.ev(e["args"][0], st, fr)
            return [(I0, st)]
        loc = ("T", fresh())
        return [(("LV", loc), x) for x in self.init_into(e, loc, st, fr, t)]

    def e_throw(self, e, st, fr):
        t = e.get("tt")
        if e.get("e") is None:
            self.sinks[-1].append((("rethrow",), st))
            return []
        for v, x in self.ev(e["e"], st, fr):
            self.event(x, "throw", t, e.get("l"))
            self.sinks[-1].append((("type", t, v), x))
        return []

    def e_lambda(self, e, st, fr):
        loc = ("T", fresh())
        fn = self.P.fn.get(e["fn"])
        if fn is None:
            raise AnalysisBroken("lambda without body in " + fr.fn["qn"])
        st.alias[loc] = ("H", loc[1], "lambda")
        self.closures[("H", loc[1], "lambda")] = (fn, fr, e["captures"], loc)
        sts = [st]
        for c in e["captures"]:
            if c.get("this"):
                continue
            src = self.varloc({"id": c["id"], "name": c["name"]}, st, fr)
            if c.get("byref"):
                self.setv(st, F(loc, "$cap" + c["id"]), ("addr", src) if src[0] != "P" else src[1], None)
            elif c.get("init") is not None:
                nxt = []
                for s in sts:
                    nxt += self.init_into(c["init"], F(loc, "$cap" + c["id"]), s, fr, c["init"].get("t"))
                sts = nxt
            else:
                for s in sts:
                    s.copy_obj(F(loc, "$cap" + c["id"]), src)
        return [(("LV", loc), s) for s in sts]

    def invoke(self, f, args, st, fr, e):
        """calls a callable value (closure location, function pointer term)"""
        if is_lv(f):
            o = st.origin(f[1])
            c = self.closures.get(o)
            if c:
                fn, pfr, caps, loc0 = c
                nf = Frame(fn, fresh(), pfr.this, fr, lam=pfr)
                for cp in caps:
                    if cp.get("this"):
                        continue
                    l = F(f[1], "$cap" + cp["id"])
                    if cp.get("byref"):
                        p = st.load(l)
                        st.refs[(cp["id"], nf.num)] = p[1] if p[0] == "addr" else ("P", p)
                    else:
                        st.refs[(cp["id"], nf.num)] = l
                return self.inline_call(fn, pfr.this, args, st, fr, e, frame=nf)
            v = st.load(f[1])
            f = v
        if f[0] == "fn" and f[1] in self.P.fn:
            fn = self.P.fn[f[1]]
            h = self.c.call(self, st, fr, e, fn, None, args)
            if h is not None:
                return h
            if fn.get("has_body") and fn["inrepo"]:
                return self.inline_call(fn, None, args, st, fr, e)
            return self.opaque_call(e, fn, None, args, st, fr)
        return [(self.fresh_ap("invoke", (e or {}).get("t")), st)]

    def e_callptr(self, e, st, fr):
        out = []
        for f, x in self.ev(e["f"], st, fr):
            for args, y in self.args(e["args"], None, x, fr):
                self.event(y, "callptr", f)
                out += self.invoke(f, args, y, fr, e)
        return out

    def e_new(self, e, st, fr):
        loc = ("T", fresh())
        v = ("addr", loc)
        t = e.get("at")
        self.event(st, "new", loc, t)
        if e.get("init") is None:
            st.alias[loc] = ("H", fresh(), None)
            return [(v, st)]
        sts = self.init_into(e["init"], loc, st, fr, t, dyn=t)
        return [(v, x) for x in sts]

    def e_delete(self, e, st, fr):
        out = []
        for v, x in self.evr(e["e"], st, fr):
            self.event(x, "delete", v)
            out.append((None, x))
        return out

    def e_stmtexpr(self, e, st, fr):
        raise AnalysisBroken("statement expression")

    def e_opaque(self, e, st, fr):
        sts = [st]
        for a in e.get("args") or []:
            if isinstance(a, dict):
                sts = [x for s in sts for _, x in self.ev(a, s, fr)]
        out = []
        for s in sts:
            if self.is_class(e.get("t", "")):
                loc = ("T", fresh())
                s.alias[loc] = ("H", fresh(), e.get("cls"))
                out.append((("LV", loc), s))
            else:
                out.append((self.fresh_ap("opaque", e.get("t")), s))
        return out

    # ------------------------------------------------------------ initialization
    def init_into(self, e, loc, st, fr, t, dyn=None):
        """initializes loc with e; [state]"""
        k = e["k"]
        t = t or e.get("t", "")
        while k in ("defarg", "stdinit", "bindingval") or k == "cast" and e.get("ck") in ("ConstructorConversion", "NoOp", "UserDefinedConversion") and self.is_class(e.get("t", "")) or k == "icast" and self.is_class(e.get("t", "")):
            e = e["e"]
            k = e["k"]
        if t is not None and is_ref(t):
            out = []
            for v, x in self.ev(e, st, fr):
                x.refs[("field", loc)] = self.as_loc(v, x, t)
                l = x.refs[("field", loc)]
                self.setv(x, loc, l[1] if l[0] == "P" else ("addr", l))
                out.append(x)
            return out
        if not self.is_class(t):
            out = []
            if k == "construct" and not e["args"]:
                self.setv(st, loc, I0, t)
                return [st]
            for v, x in self.full(e, st, fr):
                self.setv(x, loc, self.load(v, x, t) if v is not None else self.fresh_ap("v", t), t)
                out.append(x)
            return out
        if k == "construct":
            return self.construct(e, loc, st, fr)
        if k == "init":
            return self.init_list(e, loc, st, fr, t)
        if k == "cond":
            return [y for truth, x in self.cond(e["c"], st, fr) for y in self.init_into(e["a"] if truth else e["b"], loc, x, fr, t)]
        out = []
        for v, x in self.full(e, st, fr):
            if is_lv(v):
                x.copy_obj(loc, v[1])
                if v[1][0] == "T":
                    self.tempdtor = [z for z in self.tempdtor if z[0] != v[1]]
            elif v is not None and v[0] == "str":
                self.setv(x, loc, v, t)
            else:
                x.havoc(loc)
            out.append(x)
        return out

    def init_list(self, e, loc, st, fr, t):
        st.clear(loc)
        rec = self.P.records.get(e.get("rec") or strip_cv(t))
        fields = e.get("fields")
        if not fields and rec:
            fields = [f["name"] for f in rec.get("fields", [])]
        sts = [st]
        args = e.get("args") or []
        if rec is None and not fields:
            # array or initializer_list
            for i, a in enumerate(args):
                sts = [x for s in sts for x in self.init_into(a, ("I", loc, ("i", i)), s, fr, a.get("t"))]
            for s in sts:
                self.setv(s, F(loc, "$n"), ("i", len(args)), "unsigned long")
            return sts
        for i, a in enumerate(args):
            if i >= len(fields):
                sts = [x for s in sts for x in self.init_into(a, ("I", loc, ("i", i)), s, fr, a.get("t"))]
                continue
            f = fields[i]
            f = f if isinstance(f, str) else f["name"]
            sts = [x for s in sts for x in self.init_into(a, F(loc, f), s, fr, a.get("t"))]
        for f in (rec or {}).get("fields", [])[len(args):]:
            for s in sts:
                if not self.is_class(f["t"]):
                    self.setv(s, F(loc, f["name"]), I0, f["t"])
        return sts

    def e_construct(self, e, st, fr):
        t = e.get("t", "")
        if not self.is_class(t):
            if e["args"]:
                return self.ev(e["args"][0], st, fr)
            return [(I0, st)]
        # elide copies of temporaries
        loc = ("T", fresh())
        sts = self.construct(e, loc, st, fr)
        r = self.P.records.get(e.get("rec") or "")
        if r and r.get("inrepo"):
            for m in r.get("methods", []):
                d = self.P.fn.get(m)
                if d and d["kind"] == "dtor" and d.get("userprovided"):
                    self.tempdtor = self.tempdtor + [(loc, d)]
        return [(("LV", loc), x) for x in sts]

    def construct(self, e, loc, st, fr):
        fn = self.P.fn.get(e["fn"]) if e.get("fn") else None
        out = []
        for args, x in self.args(e["args"], fn, st, fr):
            x.clear(loc)
            out += self.construct_call(e, fn, loc, args, x, fr)
        return out

    def construct_call(self, e, fn, loc, args, st, fr):
        rec = e.get("rec") or ""
        r = self.P.records.get(rec)
        st.alias[loc] = ("H", fresh(), None)
        h = self.c.call(self, st, fr, e, fn, loc, args)
        if h is not None:
            return [x for _, x in h]
        if fn is not None and fn.get("inrepo") and fn.get("has_body"):
            if fn["id"] not in fr.stack() and fr.depth < 12 and self.c.inline(self, fn, fr):
                return [x for _, x in self.inline_call(fn, loc, args, st, fr, e)]
        m = self.models.lookup_ctor(self, short(rec))
        if m is not None:
            res = m(self, st, fr, e, fn, loc, args)
            if res is not None:
                return [x for _, x in res]
        if (e.get("copy") or e.get("move")) and args:
            if is_lv(args[0]):
                src = args[0][1]
                if r is not None and r.get("inrepo") and e.get("move"):
                    self.move_fields(st, loc, src, rec, fr)
                else:
                    st.copy_obj(loc, src)
            return [st]
        if r is not None and r.get("inrepo") and fn is not None and (fn.get("defaulted") or fn.get("implicit")) and not args:
            return [st]
        res = self.opaque_call(e, fn, loc, args, st, fr)
        return [x for _, x in res]

    def move_fields(self, st, dst, src, rec, fr):
        for f in self.rec_fields(rec):
            self.move_obj(st, F(dst, f["name"]), F(src, f["name"]), f["t"])

    def move_obj(self, st, dst, src, t):
        t = strip_cv(noref(t))
        if not self.is_class(t):
            self.setv(st, dst, st.load(src, t), t)
            return
        r = self.P.records.get(t)
        if r is not None and r.get("inrepo") and r.get("fields"):
            self.move_fields(st, dst, src, t, None)
            return
        st.copy_obj(dst, src)
        if dst != src:
            self.models.moved_from(self, st, src, t)

    # ------------------------------------------------------------ calls
    def args(self, exprs, fn, st, fr):
        """evaluates arguments; [(values, state)]"""
        res = [([], st)]
        params = fn["params"] if fn else []
        for i, a in enumerate(exprs):
            nxt = []
            pt = params[i]["t"] if i < len(params) else None
            for vals, s in res:
                if pt is not None and not is_ref(pt) and self.is_class(pt):
                    loc = ("T", fresh())
                    for x in self.init_into(a, loc, s, fr, pt):
                        nxt.append((vals + [("LV", loc)], x))
                    continue
                for v, x in self.ev(a, s, fr):
                    if pt is not None and is_ref(pt):
                        v = self.lvalue(v, x, pt)
                    elif not self.is_class(a.get("t", "")) or (is_lv(v) and strip_cv(a.get("t", "")).endswith("]") and (pt is None or not is_ref(pt))):
                        v = self.load(v, x, a.get("t"))
                    nxt.append((vals + [v], x))
            res = nxt
        return res

    def e_call(self, e, st, fr):
        fn = self.P.fn.get(e["fn"]) if e.get("fn") else None
        out = []
        if e.get("obj") is not None:
            objs = []
            for v, x in self.ev(e["obj"], st, fr):
                if e.get("arrow"):
                    p = self.load(v, x, e["obj"].get("t"))
                    objs.append((self.deref(p, x, fr, e), x))
                else:
                    objs.append((self.as_loc(v, x, e["obj"].get("t", "")), x))
        else:
            objs = [(None, st)]
        for obj, x in objs:
            for args, y in self.args(e["args"], fn, x, fr):
                out += self.call(e, fn, obj, args, y, fr)
                if len(out) > MAXPATHS:
                    raise AnalysisBroken("too many paths in " + fr.fn["qn"])
        return out

    def call(self, e, fn, obj, args, st, fr):
        h = self.c.call(self, st, fr, e, fn, obj, args)
        if h is not None:
            return h
        name = self.P.sq(fn) if fn else short(e.get("qn", "?"))
        if fn is not None and obj is not None and fn["name"] == "operator()" and fn.get("has_body") and fn["id"] not in fr.stack() and fr.depth < 12:
            c = self.closures.get(st.origin(obj))
            if c and c[0]["id"] == fn["id"]:
                return self.invoke(("LV", obj), args, st, fr, e)
        if fn is not None and fn.get("inrepo"):
            if not (e.get("virtual")) and fn.get("has_body") and fn["id"] not in fr.stack() and fr.depth < 12 and self.c.inline(self, fn, fr):
                return self.inline_call(fn, obj, args, st, fr, e)
            if fn.get("copyassign") or fn.get("moveassign"):
                if not fn.get("has_body"):
                    if is_lv(args[0]):
                        if fn.get("moveassign"):
                            self.move_fields(st, obj, args[0][1], fn["record"], fr)
                        else:
                            st.copy_obj(obj, args[0][1])
                    return [(("LV", obj), st)]
        m = self.models.lookup(self, name, fn)
        if m is not None:
            r = m(self, st.copy() if self.c.throwing else st, fr, e, fn, obj, args)
            if r is not None:
                self.throws(fn, e, st)
                return r
        if fn is not None and fn.get("has_body") and not fn.get("inrepo") and fn["id"] not in fr.stack() and name in ("std::make_unique",):
            return self.inline_call(fn, obj, args, st, fr, e)
        return self.opaque_call(e, fn, obj, args, st, fr)

    def inline_call(self, fn, this, args, st, fr, e, frame=None):
        nf = frame or Frame(fn, fresh(), this, fr)
        nf.call = e
        if frame is not None:
            nf.parent = fr
            nf.depth = fr.depth + 1
        nf.params_dtor = []
        for i, p in enumerate(fn["params"]):
            if i >= len(args):
                break
            a = args[i]
            t = p["t"]
            loc = ("V", p["id"], nf.num, p["name"])
            if is_ref(t):
                st.refs[(p["id"], nf.num)] = self.as_loc(a, st, t)
            elif self.is_class(t):
                st.copy_obj(loc, self.as_loc(a, st, t))
            else:
                v = self.load(a, st, t)
                self.setv(st, loc, v if v is not None else self.fresh_ap("v", t), t)
        sink_mark = len(self.sinks[-1]) if self.sinks else 0
        td, self.tempdtor = self.tempdtor, []
        outs = self.body(fn, st, nf)
        self.tempdtor = td
        res = []
        groups = {}
        for k, v, s in outs:
            if k == "T":
                self.sinks[-1].append((v, s))
                continue
            if self.c.lifetimes:
                self.c.left(self, s, fn, nf.num)
            self.drop_frame(s, nf.num, v)
            res.append((v, s))
        # join results that do not differ
        by = {}
        for v, s in res:
            by.setdefault(v if not is_lv(v) else v, []).append(s)
        out = []
        for v, ss in by.items():
            for s in self.join(ss):
                out.append((v, s))
        return out

    def drop_frame(self, st, num, v):
        keep = None
        for d in (st.store, st.alias):
            for k in [k for k in d if root(k)[0] == "V" and root(k)[2] == num]:
                del d[k]
        for k in [k for k in st.refs if k[1] == num]:
            del st.refs[k]

    def throws(self, fn, e, st):
        """the exceptions a call of fn may end with"""
        if fn is None or not self.c.throwing or not self.sinks:
            return
        for t in self.c.may_throw(self, fn, e or {}):
            self.sinks[-1].append((("type", t, None), st.copy()))

    def opaque_call(self, e, fn, obj, args, st, fr):
        e = e or {}
        name = self.P.sq(fn) if fn else short(e.get("qn") or "?")
        # value arguments
        avals = []
        params = fn["params"] if fn else []
        for i, a in enumerate(args):
            pt = params[i]["t"] if i < len(params) else (e["args"][i].get("t", "") if e.get("args") and i < len(e["args"]) else "")
            avals.append(self.snapshot(st, a, pt))
        ov = None
        if obj is not None:
            ov = obj[1] if obj[0] == "P" else ("addr", obj)
        ret = fn["ret"] if fn else e.get("t", "")
        if e.get("k") == "construct":
            ret = "void"
        pure = fn is not None and (fn.get("const") or not fn.get("record") or fn.get("static")) and all(self.const_param(p["t"]) for p in params)
        base = ("ap", name) + ((ov,) if ov is not None else ()) + tuple(avals)
        if not pure or ret in ("void",):
            base = base + (("n", fresh()),)
        self.event(st, "call", name, fn["id"] if fn else None, ov, tuple(avals), base, (fr.fn["qn"], e.get("l")))
        self.throws(fn, e, st)
        # effects
        for i, a in enumerate(args):
            pt = params[i]["t"] if i < len(params) else ""
            if not self.const_param(pt):
                if is_ref(pt) and is_lv(a):
                    if self.is_class(pt):
                        st.havoc(a[1], name)
                    else:
                        self.setv(st, a[1], self.fresh_ap("out", pt), pt)
                elif is_ptr(pt) and a is not None and a[0] == "addr" and self.loc_class(pt):
                    st.havoc(a[1], name)
        if obj is not None and fn is not None and not fn.get("const") and not fn.get("static"):
            st.havoc(obj, name)
        if fn is not None and fn.get("noreturn"):
            self.event(st, "noreturn", name, tuple(avals))
            self.sinks[-1].append((("noreturn", name, tuple(avals)), st))
            return []
        self.c.opaque(self, st, fr, e, fn, obj, args, base)
        if ret == "void" or ret == "":
            return [(None, st)]
        if is_ref(ret):
            p = base
            st.dom.setdefault(p, (1, None, frozenset((0,)), None))
            return [(("LV", ("P", p)), st)]
        if self.is_class(ret):
            loc = ("T", fresh())
            h = ("H", base, name)
            st.alias[loc] = h
            return [(("LV", loc), st)]
        TYPES.setdefault(base, strip_cv(ret))
        if name in LENGTHS:
            st._setdom(base, lo=0, hi=2 ** 47 - 1)
        if name in NONNULL or name.endswith("::what") or name.endswith("::operator->") and fn is not None and not fn.get("inrepo") and is_ptr(ret) or name.startswith("boost::program_options::typed_value"):
            st.dom.setdefault(base, (1, None, frozenset((0,)), None))
        return [(base, st)]

    def loc_class(self, pt):
        return True

    def const_param(self, t):
        t = t.strip()
        if is_ref(t):
            return noref(t).startswith("const ") or t.endswith("&&") and False
        if is_ptr(t):
            b = strip_cv(t)[:-1].strip()
            return b.startswith("const ") or b.endswith("const")
        return True

    def snapshot(self, st, v, t):
        """term for the current value of an argument"""
        if not is_lv(v):
            return v if v is not None else ("ap", "void")
        t2 = strip_cv(noref(t))
        if is_ref(t) and not self.const_param(t):
            return v[1][1] if v[1][0] == "P" else ("addr", v[1])
        if not self.is_class(t2):
            return st.load(v[1], t2)
        return self.models.value(self, st, v[1], t2)


def cycles(P, cut=()):
    """functions on cycles of the graph of direct (also possibly virtual) calls"""
    g = {}
    for f in P.fn.values():
        if not f.get("has_body") or cut and P.sq(f) in cut:
            continue
        out = g.setdefault(f["id"], set())
        for n in walk([f.get("body"), f.get("inits")]):
            t = n.get("fn")
            if t and n.get("k") in ("call", "construct", "lambda"):
                out.add(t)
                if n.get("virtual"):
                    for o in P.overriders(t):
                        out.add(o if isinstance(o, str) else o["id"])
    res = set()
    for c in scc(g):
        if len(c) > 1 or c[0] in g.get(c[0], ()):
            res |= set(c)
    return res


def scc(g):
    """strongly connected components (Tarjan, iterative)"""
    idx, low, on, stack, out, n = {}, {}, set(), [], [], 0
    for r in g:
        if r in idx:
            continue
        work = [(r, iter(g.get(r, ())))]
        idx[r] = low[r] = n
        n += 1
        stack.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n
                    n += 1
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(g.get(w, ()))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out


def num(x):
    """integer written by the extractor (large ones are strings)"""
    if isinstance(x, str):
        return int(x.lstrip("#"))
    return int(x)


def divides(v, p):
    """v is p divided by a constant of at least two"""
    return v[0] == "op" and v[1] == "/" and v[2] == p and is_const(v[3]) and v[3][1] >= 2


def elem_of(k, cont):
    while k[0] in ("F", "I"):
        if k[0] == "I" and k[1] == cont:
            return True
        k = k[1]
    return False


def invariant(t, mark):
    for x in subterms(t):
        if x[0] == "phi" and x[1] > mark:
            return False
        if x[0] == "n" and isinstance(x[1], int) and x[1] > mark:
            return False
        if x[0] in ("H", "T") and isinstance(x[1], int) and x[1] > mark:
            return False
    return True


def apply_cand(h, c):
    if c[0] == "nonnull":
        return h._setdom(c[1], ne=(0,))
    if c[0] == "imp":
        h.imps = h.imps | {c[1:]}
        return True
    return h.add_rel(c[1])


def holds(st, c, phis, back):
    m = {p: st.load(l, t) for l, (p, t) in phis.items()}
    if c[0] == "nonnull":
        return st.nonnull(m[c[1]])
    if c[0] == "imp":
        if m[c[1]] == ("i", c[2]) or st.decide(mk_eq(m[c[1]], ("i", c[2]))) is True:
            return True
        if any(i[0] == m[c[1]] and i[1] == c[2] and i[2] == substituted(c[3], m) for i in st.imps):
            return True
        if c[3][0] == 1 and len(c[3][1]) == 1 and c[3][1][0][1] == -1 and c[3][1][0][0] in m:
            return st.nonnull(m[c[3][1][0][0]])
    return st.entails(substituted(c[-1], m))


def substituted(lin, m):
    acc = (lin[0], ())
    for t, k in lin[1]:
        t2 = m.get(t)
        if t2 is None:
            t2 = subst(t, m) if any(x in m for x in subterms(t)) else t
        acc = lin_comb(acc, 1, to_lin(t2), k)
    return acc


def join_facts(a, b):
    r = a.copy()
    dom = {}
    for t in a.dom:
        if t in b.dom or True:
            la, ha, na, aa = a.bounds(t)
            lb, hb, nb, ab = b.bounds(t)
            lo = min(la, lb) if la is not None and lb is not None else None
            hi = max(ha, hb) if ha is not None and hb is not None else None
            al = (aa | ab) if aa is not None and ab is not None else None
            ne = set()
            for x in na | nb:
                if not possible(a, t, x) and not possible(b, t, x):
                    ne.add(x)
            dom[t] = (lo, hi, frozenset(ne), al)
    for t in b.dom:
        if t not in dom:
            la, ha, na, aa = a.bounds(t)
            lb, hb, nb, ab = b.bounds(t)
            lo = min(la, lb) if la is not None and lb is not None else None
            hi = max(ha, hb) if ha is not None and hb is not None else None
            al = (aa | ab) if aa is not None and ab is not None else None
            ne = frozenset(x for x in na | nb if not possible(a, t, x) and not possible(b, t, x))
            dom[t] = (lo, hi, ne, al)
    r.rels = frozenset(x for x in a.rels if x in b.rels or b.entails(x, 2)) | frozenset(x for x in b.rels if x not in a.rels and a.entails(x, 2))
    r.imps = a.imps & b.imps
    for p, q in ((a, b), (b, a)):
        r.imps |= {i for i in p.imps - r.imps if q.decide(mk_eq(i[0], ("i", i[1]))) is True or q.entails(i[2], 2)}
    r.nes = frozenset(x for x in a.nes if x in b.nes)
    r.eqs = {t: c for t, c in a.eqs.items() if b.eqs.get(t) == c}
    r.dom = dom
    return r


def possible(s, t, x):
    lo, hi, ne, al = s.bounds(t)
    if x in ne or lo is not None and x < lo or hi is not None and x > hi:
        return False
    return al is None or x in al
