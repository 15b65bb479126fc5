"""C01-C04: the parser's automaton and its actions against the documented syntax."""
import re

from .. import absx, escape, facts, hextgrammar, loopeval, ragel
from ..facts import AnalysisBroken, rel
from . import safety

NULL, MOVED = absx.NULL, absx.MOVED
program = safety.program
STRUCT = {"open", "pop", "nest", "unnest", "close"}
METHODS = {"push_rule": "open", "pop_rule": "pop", "push_nested": "nest", "pop_nested": "unnest",
           "set_open_tag_or_throw": "tag", "validate_close_tag_or_throw": "close"}
TRUST = [
    "the table-driven loop of the parser is ragel's own (-T0); its form is recognised exactly, its tables and actions are read from the sources",
    "boost::regex and std::stoi report malformed input with the exceptions they document",
    "memory is not exhausted",
]


def consts(P):
    def en(name, c):
        e = P.enums.get(name)
        for n, v in (e or {}).get("consts", []):
            if n == c:
                return v
        raise AnalysisBroken("enumerator %s::%s not found" % (name, c))
    out = {"First": en("hext::NthChildMatch::Option", "First"), "Last": en("hext::NthChildMatch::Option", "Last"),
           "OfType": en("hext::NthChildMatch::Option", "OfType"), "OnlyAny": en("hext::OnlyChildMatch::Option", "AnyType"),
           "OnlyOfType": en("hext::OnlyChildMatch::Option", "OfType"), "ToLower": en("hext::CasePipe::Option", "ToLower"),
           "ToUpper": en("hext::CasePipe::Option", "ToUpper"), "trim_default": (("str", " "),),
           # boost/regex/v5/regbase.hpp
           "perl": 0, "icase": 1 << 20, "collate": 1 << 22}
    e = P.enums.get("boost::regbase::flag_type_")
    for n, v in (e or {}).get("consts", []):
        if n in ("icase", "collate"):
            out[n] = v
    for f in P.fn.values():
        if f.get("inrepo") and f["qn"] == "hext::Parser::parse":
            for x in facts.walk(f.get("body")):
                m = re.match(r"boost::regbase::(icase|collate)$", str(x.get("enum", "")))
                if m:
                    out[m.group(1)] = x["v"]
    return out


# ---------------------------------------------------------------- anchors
def anchors(P):
    A = {}

    def method(event):
        def a(ev, e, f):
            vals = tuple(ev.rv(ev.ev(x)) for x in e.get("args") or [])
            if e.get("obj") is not None:
                ev.ev(e["obj"])
            ev.events.append((event,) + vals)
            return None
        return a
    for n, event in METHODS.items():
        A["hext::Parser::" + n] = method(event)

    def rule(event):
        def a(ev, e, f):
            if f.get("targs"):
                return NotImplemented
            o = ev.ev(e["obj"])
            if e.get("arrow"):
                o = absx.L(ev.target(ev.rv(o)))
            v = ev.rv(ev.move_arg(e["args"][0], f, 0)) if e.get("args") else None
            if isinstance(o, absx.L) and o.k == CUR:
                if event in ("optional", "greedy"):
                    ev.events.append((event,) if v == 1 else (event, v))
                else:
                    ev.events.append((event, v))
            else:
                ev.events.append((event + " of another rule", v))
            return o
        return a
    for n, event in (("append_match", "match"), ("append_capture", "capture"), ("set_optional", "optional"), ("set_greedy", "greedy")):
        A["hext::Rule::" + n] = rule(event)

    def negappend(ev, e, f):
        if f.get("targs"):
            return NotImplemented
        k = key(ev, e)
        v = ev.read(k)
        x = ev.rv(ev.move_arg(e["args"][0], f, 0))
        items = v[1] if isinstance(v, tuple) and v[0] == "neg" else neg(v)
        ev.write(k, ("neg", items + (x,)))
        return None

    def pipeappend(ev, e, f):
        if f.get("targs"):
            return NotImplemented
        k = key(ev, e)
        v = ev.read(k)
        x = ev.rv(ev.move_arg(e["args"][0], f, 0))
        ev.write(k, ("chain", chain(v) + (chain(x) or (x,))))
        return None

    def key(ev, e):
        o = ev.ev(e["obj"])
        if e.get("arrow"):
            return ev.target(ev.rv(o))
        return o.k if isinstance(o, absx.L) else ev.temp(o).k
    A["hext::NegateMatch::append_match"] = negappend
    A["hext::StringPipe::append"] = pipeappend
    A["hext::Rule::Rule"] = lambda ev, e, f: ("rule",)
    return A


CUR = ("this", "stacks_", "back", "back")


def neg(v):
    """the matches a NegateMatch was constructed with"""
    if isinstance(v, tuple) and v[0] == "obj" and v[1] == "hext::NegateMatch":
        return tuple(x for x in v[2] if isinstance(x, tuple) and x[0] in ("obj", "neg"))
    return (("not a negation", v),)


def chain(v):
    if v == NULL:
        return ()
    if isinstance(v, tuple) and v[0] == "chain":
        return v[1]
    return (v,)


# ---------------------------------------------------------------- values
def age(v, label):
    """texts taken from earlier instances of a region (label None: of all) are primed"""
    if isinstance(v, frozenset):
        return v if label is None and not v else frozenset(older(x, label) for x in v)
    if isinstance(v, tuple):
        if v and v[0] == "tok":
            return ("tok", older(v[1], label) if isinstance(v[1], str) else age(v[1], label))
        return tuple(age(x, label) if isinstance(x, (tuple, frozenset)) else x for x in v)
    return v


OLD = frozenset(("'",))


def stale(v, initial):
    """a value left over from an earlier construct: only its kind matters"""
    if v == initial or isinstance(v, int) or v in (NULL, MOVED):
        return v
    k = v[0]
    if k == "tok":
        return ("tok", OLD)
    if k == "pos":
        return ("pos", OLD, OLD)
    if k == "regex":
        return ("regex", ("tok", OLD), "'")
    if k in ("chain", "neg"):
        return (k, ("'",))
    if k == "obj":
        return (k, "'", ())
    if k == "pair":
        return (k,) + (("'",),) * (len(v) - 1)
    if k == "global":
        return (k, "'")
    return age(v, None)


def older(x, label):
    """one more prime, or, for all of them, no difference any more"""
    if label is None:
        return "'"
    return x + "'" if not x.endswith("'") and x == label else x


def equal(i, r):
    """does the value of the implementation mean what the documentation says"""
    if r == NULL:
        return i == NULL
    if isinstance(r, int):
        return isinstance(i, int) and i == r
    if not isinstance(i, tuple) or not i:
        return False
    if r[0] == "tok":
        return i[0] == "tok" and r[1] in i[1]
    if r[0] == "int":
        if i[0] == "int":
            return equal(i[1], r[1])
        # a conversion by some other function
        if i[0] == "ap":
            toks = [x for x in flatten(i) if isinstance(x, tuple) and x and x[0] == "tok"]
            return len(toks) == 1 and equal(toks[0], r[1])
        return False
    if r[0] == "regex":
        while i[0] == "deref":
            i = i[1]
        return i[0] == "regex" and equal(i[1], r[1]) and i[2] == r[2]
    if r[0] == "obj":
        if r[1] == "NegateMatch":
            items = i[1] if i[0] == "neg" else neg(i)
            return len(items) == len(r[2]) and all(equal(a, b) for a, b in zip(items, r[2]))
        if i[0] != "obj" or i[1] != "hext::" + r[1] or len(i[2]) != len(r) - 2:
            return False
        return all(equal(a, b) for a, b in zip(i[2], r[2:]))
    if r[0] == "same":
        return i == r
    if r[0] in ("str", "global"):
        return i == r
    return False


def equal_event(i, r):
    if i[0] != r[0] or len(i) != len(r):
        return False
    if r[0] == "capture":
        a, b = i[1], r[1]
        if not (isinstance(a, tuple) and a[0] == "obj" and a[1] == "hext::" + b[1] and len(a[2]) == 3):
            return False
        if not (equal(a[2][0], b[2]) and equal(a[2][1], b[3])):
            return False
        c = chain(a[2][2])
        return len(c) == len(b[4]) and all(equal(x, y) for x, y in zip(c, b[4]))
    return all(equal(a, b) for a, b in zip(i[1:], r[1:]))


def flatten(v):
    yield v
    if isinstance(v, tuple):
        for x in v:
            yield from flatten(x)


def settle(pi, pr):
    """removes what both sides did; (implementation, documentation, mismatch or None)"""
    pi, pr = list(pi), list(pr)
    while pi and pr:
        r = pr[0]
        hit = None
        for j, i in enumerate(pi):
            if i[0] == r[0]:
                hit = j if equal_event(i, r) else None
                if hit is None:
                    return pi, pr, (i, r)
                break
            if i[0] in STRUCT:
                return pi, pr, (i, r)
            if r[0] in STRUCT:
                return pi, pr, (i, r)
            # effects of other kinds on the same rule are independent; this one is looked for later
            k = [x for x in pr if x[0] == i[0] or x[0] in STRUCT]
            if not k and len(pr) > 3:
                return pi, pr, (i, r)
        if hit is None:
            # perhaps the documentation's next effect comes later here; try the other ones
            for j2, r2 in enumerate(pr[1:], 1):
                if r2[0] in STRUCT or any(x[0] == r2[0] for x in pr[:j2]):
                    break
                if pi[0][0] == r2[0]:
                    if not equal_event(pi[0], r2):
                        return pi, pr, (pi[0], r2)
                    del pi[0], pr[j2]
                    hit = -1
                    break
            if hit == -1:
                continue
            break
        del pi[hit], pr[0]
    return pi, pr, None


class ActionEval(absx.Eval):
    """operations on the rule stacks that are not made by the known functions"""

    def library(self, name, e, f, obj):
        if isinstance(obj, absx.L) and obj.k[:2] == CUR[:2] and name.startswith("std::vector::"):
            last = name.rsplit("::", 1)[-1]
            if obj.k == CUR[:3] and (last == "emplace_back" and not e.get("args") or last == "push_back" and self.rv(self.ev(e["args"][0])) == ("rule",)):
                self.events.append(("open",))
                return absx.L(CUR)
            if not f.get("const") and last not in ("back", "front", "at", "operator[]", "begin", "end", "rbegin", "rend", "data"):
                raise AnalysisBroken("%s on the rule stacks in an action" % last)
        return super().library(name, e, f, obj)


# ---------------------------------------------------------------- product
class Product:
    LIMIT = 400000

    def __init__(self, P, E, isolate=False):
        self.P, self.E, self.isolate = P, E, isolate
        self.f = P.one("hext::Parser::parse", lambda f: f.get("has_body"))
        self.M = ragel.Machine(P, self.f)
        self.G = hextgrammar.G(consts(P))
        self.A = anchors(P)
        self.bad = {}            # key -> (kind, message, line, example)
        self.conversions = {}
        self.thrown = {}
        self.used = set()
        self.states = self.steps = 0
        self.cache = {}
        self.reps = self.representatives()
        self.store0 = self.initial_store()
        self.run()

    def representatives(self):
        b = self.M.boundaries()
        for s in self.G.classes():
            for c in s:
                if c - 1 not in s:
                    b.add(c)
                if c + 1 not in s:
                    b.add(c + 1)
        b.add(-128)
        return sorted(c for c in b if -128 <= c <= 127)

    def evaluator(self, store, choices):
        return ActionEval(self.P, self.E, store, choices, self.A)

    def initial_store(self):
        ev = absx.Eval(self.P, self.E, {}, [], self.A)
        for s in self.M.head:
            ev.run(s)
        if any(ev.asked):
            raise AnalysisBroken("the parser's initial values depend on unknown conditions")
        st = {k: v for k, v in ev.st.items() if k[0] != "tmp"}
        if st.get(("this", "cs")) != self.M.start:
            raise AnalysisBroken("the automaton does not start in its start state")
        for k in (("this", "cs"), ("this", "p")):
            st.pop(k, None)
        # the input starts at p_begin and ends at pe
        st = {k: v for k, v in st.items() if not (k[0] == "this" and k[1] in ("stacks_",))}
        return st

    # ------------------------------------------------------------ actions
    def execute(self, store, code, acts):
        """all outcomes of an action list: (store, events, None|('throw', type, line)|('ub', what, line), numbers, forced)"""
        key = (store, id(code), acts)
        if key in self.cache:
            return self.cache[key]
        outs = []
        todo = [[]]
        while todo:
            choices = todo.pop()
            n = len(choices)
            ev = self.evaluator(dict(store), choices)
            end, forced = None, False
            for a in acts:
                self.used.add(a)
                try:
                    ev.line = None
                    for s in code[a]:
                        ev.run(s)
                except absx.Break:
                    pass
                except absx.Thrown as t:
                    end = ("throw", t.typ, t.where or ev.line, a)
                    break
                except absx.UB as u:
                    end = ("ub", u.what, u.where, a)
                    break
                except absx.Return:
                    end = ("return", None, ev.line, a)
                    break
                except KeyError:
                    end = ("ub", "action %s does not exist" % a, None, a)
                    break
            # alternatives that were not taken
            for i in range(n, len(ev.asked)):
                for c in range(1, ev.asked[i][0]):
                    todo.append(choices[:i] + [c])
            if len(outs) > 64:
                raise AnalysisBroken("too many branches in action code")
            forced = any(c and w[0] in ("regex", "number") for c, (_, w) in zip(ev.choices, ev.asked))
            unknown = [w for _, w in ev.asked if w[0] == "condition"]
            nums = tuple(x for x in ev.events if x[0] == "number")
            st = frozenset((k, v) for k, v in ev.st.items() if k[0] not in ("tmp",) and not (k[0] == "var" and self.transient(k, store)))
            outs.append((st, tuple(x for x in ev.events if x[0] != "number"), end, nums, forced, bool(unknown)))
        self.cache[key] = outs
        return outs

    def transient(self, k, store):
        return k[:2] not in self.keys0

    def fail(self, kind, what, line, state, c, extra=""):
        k = (kind, what)
        if k not in self.bad:
            self.bad[k] = (line, self.example(state, c), extra)

    def example(self, state, c):
        out = [] if c is None else [c]
        while state is not None:
            p = self.parent.get(state)
            if p is None:
                break
            state, ch = p
            out.append(ch)
        return "".join(chr(x & 255) for x in reversed(out))

    # ------------------------------------------------------------ exploration
    def run(self):
        M, G = self.M, self.G
        self.keys0 = {("var", v["id"]) for s in M.head for x in facts.walk(s) if x.get("k") == "decl" for v in x["vars"]}
        store = frozenset(self.store0.items())
        out, threads = G.settle(G.initial())
        start = (M.start, threads, store, (), tuple(out))
        self.parent = {start: None}
        todo = [start]
        closure = {}
        while todo and not self.enough():
            nxt = []
            for state in todo:
                self.states += 1
                if self.states > self.LIMIT:
                    raise AnalysisBroken("too many states of the parser")
                self.at_end(state)
                cs, threads, store, pi, pr = state
                seen = set()
                for c in self.reps:
                    t = M.step(cs, c)
                    ref = frozenset(), frozenset()
                    after, marks = G.step(threads, c)
                    k = (t, frozenset(after), frozenset(marks))
                    if k in seen:
                        continue
                    seen.add(k)
                    self.steps += 1
                    for new in self.advance(state, c, t, k[1], k[2], closure):
                        if new not in self.parent:
                            self.parent[new] = (state, c)
                            nxt.append(new)
            todo = nxt

    def enough(self):
        return len(self.bad) >= 12

    def at_end(self, state):
        cs, threads, store, pi, pr = state
        ok = any(t[0] == self.G.final for t in threads)
        acts = self.M.eof[cs]
        for st, events, end, nums, forced, unknown in self.execute(store, self.M.eofcode, acts):
            self.numbers(nums, state, None)
            if end is None or end[0] == "return":
                if not ok and threads:
                    self.fail("accepts", "accepts an unfinished construct at the end of the input", None, state, None, "unfinished")
                    continue
                # what is still to be done on either side
                ri = list(pi) + list(events)
                rest = [t[3] for t in threads if t[0] == self.G.final]
                rr = list(pr) + list(rest[0] if rest else ())
                ri, rr, bad = settle(ri, rr)
                if bad or ri or rr:
                    i, r = bad or (ri[0] if ri else None, rr[0] if rr else None)
                    self.fail("effect", self.describe(i, r), None, state, None, (i, r))
            elif end[0] == "ub":
                self.fail("ub", end[1], end[2], state, None)
            else:
                self.raised(end, state, None)
                if ok and not forced:
                    structural = any(x[0] in STRUCT for x in events)
                    if not structural:
                        self.fail("rejects", "rejects hext that is complete", end[2], state, None)

    def numbers(self, nums, state, c):
        for _, s, line in nums:
            k = (s, line)
            good = isinstance(s, tuple) and s[0] == "tok" and s[1] & self.G.numeric
            self.conversions.setdefault(line, set()).add(bool(good))
            if not good:
                self.fail("number", "text that is not a number is converted to int", line, state, c)

    def raised(self, end, state, c):
        typ, line = end[1], end[2]
        self.thrown.setdefault(typ, set()).add(end[3])
        if not self.E.isa(typ, "hext::SyntaxError"):
            self.fail("exception", "%s may leave the parser" % typ, line, state, c)

    def advance(self, state, c, t, after, marks, closure):
        cs, threads, store, pi, pr = state
        target, acts = t
        starts = frozenset(m[1] for m in marks if m[0] == "s")
        ends = frozenset(m[1] for m in marks if m[0] == "e")
        fresh = any(m[0] == "fresh" for m in marks)
        st = dict(store)
        if fresh and self.isolate:
            # what was read before must not matter, except the traits of an unfinished :not()
            st = dict(self.store0)
        if fresh:
            negs = any("negs" in dict(t[1]) for t in threads)
            for k, v in store:
                if negs and isinstance(v, tuple) and v and (v[0] == "neg" or v[0] == "obj" and v[1] == "hext::NegateMatch"):
                    st[k] = v
                elif not self.isolate:
                    st[k] = stale(v, self.store0.get(k))
        elif any(m[0] == "next" for m in marks):
            # what no construct still needs is stale
            live = set()
            for t in after:
                live |= set(flatten((t[1], t[3])))
            live |= set(flatten(pi)) | set(flatten(pr))
            lab = {x[1] for x in live if isinstance(x, tuple) and len(x) == 2 and x[0] == "tok" and isinstance(x[1], str)}
            for k, v in store:
                f = set(flatten(v))
                if isinstance(v, int) and self.isolate:
                    st[k] = self.store0.get(k, v)
                elif not (v in live or v == ("chain", (SAME,)) or any(isinstance(x, tuple) and x and x[0] in ("tok", "pos") and any(isinstance(y, frozenset) and y & lab for y in x) for x in f)):
                    st[k] = self.store0[k] if self.isolate and k in self.store0 else stale(v, self.store0.get(k))
        for l in [None] if fresh else sorted(starts):
            if not fresh:
                st = {k: age(v, l) for k, v in st.items()}
            after = frozenset((n, age(e, l), m, age(o, l)) for n, e, m, o in after)
            pi, pr = age(pi, l), age(pr, l)
        st[("this", "p")] = ("pos", starts, ends)
        frozen = frozenset(st.items())
        for out, events, end, nums, forced, unknown in self.execute(frozen, self.M.code, acts):
            self.numbers(nums, state, c)
            alive = bool(after)
            if end is not None:
                if end[0] == "ub":
                    self.fail("ub", end[1], end[2], state, c)
                    continue
                if end[0] == "return":
                    if alive:
                        self.fail("rejects", "stops reading before the end of the input", end[2], state, c)
                    continue
                self.raised(end, state, c)
                if alive and not forced:
                    self.fail("rejects", "rejects a character that may stand here", end[2], state, c)
                continue
            if target == self.M.error and (alive or True):
                if alive:
                    self.fail("rejects", "rejects a character that may stand here", None, state, c)
                else:
                    self.fail("accepts", "ends the parse without an error at a character that may not stand here", None, state, c)
                continue
            if not alive:
                self.fail("accepts", "accepts a character that may not stand here", None, state, c)
                continue
            key = after
            if key not in closure:
                closure[key] = self.G.closure(after)
            o, th = self.G.settle(closure[key])
            ni, nr = list(pi) + list(events), list(pr) + list(o)
            ni, nr, bad = settle(ni, nr)
            if bad or len(ni) > 4 or len(nr) > 4:
                i, r = bad or (ni[0] if ni else None, nr[0] if nr else None)
                self.fail("effect", self.describe(i, r), self.code_line(acts), state, c, (i, r))
                continue
            od = dict(out)
            if od.pop(("this", "p"), None) != st[("this", "p")] or ("this", "cs") in od or ("this", "pe") in od:
                self.fail("moves", "an action moves the reading position or changes the automaton's state", self.code_line(acts), state, c)
                continue
            od, th = self.merge(od, th)
            yield (target, th, frozenset(od.items()), tuple(ni), tuple(nr))

    def code_line(self, acts):
        for a in acts:
            for s in self.M.code.get(a, ()):
                for x in facts.walk(s):
                    if x.get("l"):
                        return x["l"]
        return None

    def merge(self, od, th):
        """chains of pipes and lists of negated traits: what both sides agree on is one marker"""
        for env, kind in (("pipes", "chain"), ("negs", "neg")):
            lists = {dict(t[1]).get(env, ()) for t in th}
            if len(lists) != 1 or lists == {()}:
                continue
            ref = next(iter(lists))
            if ref == (SAME,):
                continue
            for k, v in od.items():
                items = neg(v) if kind == "neg" and isinstance(v, tuple) and v and v[0] == "obj" and v[1] == "hext::NegateMatch" else \
                    v[1] if isinstance(v, tuple) and v and v[0] == kind else (v,) if kind == "chain" and isinstance(v, tuple) and v and v[0] == "obj" else None
                if items and len(items) == len(ref) and all(equal(x, y) for x, y in zip(items, ref)):
                    od[k] = (kind, (SAME,))
                    th = frozenset((n, tuple((x, (SAME,) if x == env else y) for x, y in e), m, o) for n, e, m, o in th)
                    break
        return od, th

    def describe(self, i, r):
        if i is None:
            return "missing: %s" % show(r)
        if r is None:
            return "unexpected: %s" % show(i)
        return "%s instead of %s" % (show(i), show(r))


SAME = ("same",)


def named(x):
    return ("an earlier " + (x[:-1] or "construct's text")) if x.endswith("'") else x


def show(v):
    if isinstance(v, frozenset):
        return "/".join(named(x) for x in sorted(v)) or "text that is not a part of the construct"
    if isinstance(v, tuple):
        if not v:
            return "nothing"
        if v[0] == "tok":
            return "<%s>" % (named(v[1]) if isinstance(v[1], str) else show(v[1]))
        if v[0] == "obj":
            a = v[2] if len(v) == 3 and isinstance(v[2], tuple) and str(v[1]).startswith("hext::") else v[2:]
            return "%s(%s)" % (str(v[1]).replace("hext::", ""), ", ".join(show(x) for x in a))
        if v[0] == "null":
            return "null"
        if v[0] == "global":
            return str(v[1]).replace("hext::", "")
        if v[0] == "str":
            return '"%s"' % v[1]
        return "%s(%s)" % (v[0], ", ".join(show(x) for x in v[1:])) if isinstance(v[0], str) else "[%s]" % ", ".join(show(x) for x in v)
    return str(v)


# ---------------------------------------------------------------- rule stacks
class Wrong(Exception):
    pass


class Model:
    """what an event must do to a well-formed stack of rules"""

    def __init__(self, S, K):
        self.S, self.K = S, K
        self.L = [S.slots[s][1] for s in S.vec.items]

    def work(self):
        return self.L[-1]

    def top(self, v):
        return self.S.slots[v.items[-1]][1]

    def add(self, v, r):
        v.items.append(self.S.slot(("rule", r)))

    def open(self):
        self.add(self.work(), self.S.rule("n%d" % (len(self.S.rules) + 1)))

    def nest(self):
        if not self.work().items:
            raise Wrong()
        from ..stackeval import Vec
        for _ in range(2):
            v = Vec([], 0)
            self.S.vec.items.append(self.S.slot(("level", v)))
            self.L.append(v)

    def pop(self):
        w, r = self.work(), self.L[-2]
        if not w.items:
            raise Wrong()
        x = self.top(w)
        w.items.pop()
        if w.items:
            self.S.log.append(("append_child", self.top(w), x))
        elif r.items:
            self.S.log.append(("append_next", self.top(r), x))
        else:
            self.add(r, x)

    def unnest(self):
        r = self.L[-2]
        if len(self.L) < 4 or self.work().items or not r.items:
            raise Wrong()
        x = self.top(r)
        del self.S.vec.items[-2:], self.L[-2:]
        self.S.log.append(("append_nested", self.top(self.work()), x))

    def tag(self, name):
        r = self.S.rules[self.top(self.work())]
        if name == "*":
            r["tag"], r["name"] = self.K["any"], NULL
        elif name.startswith("K"):
            r["tag"], r["name"] = ("ktag", name), NULL
        else:
            r["tag"], r["name"] = self.K["unknown"], ("name", name)

    def close(self, name):
        w = self.work()
        if not w.items:
            raise Wrong()
        r = self.S.rules[self.top(w)]
        n = Model.ident(name, self.K)
        if (r["tag"], r.get("name", NULL)) != n:
            raise Wrong()

    @staticmethod
    def ident(name, K):
        return (K["any"], NULL) if name == "*" else (("ktag", name), NULL) if name.startswith("K") else (K["unknown"], ("name", name))

    def end(self):
        if len(self.L) > 2 or self.work().items:
            raise Wrong()
        r = self.L[0]
        return ("rule", self.top(r)) if r.items else ("rule", self.S.rule("n%d" % (len(self.S.rules) + 1)))


NAMES = ("*", "K1", "K2", "U1", "U2")


def stack_functions(P, M):
    """event -> function; functions no action calls any more are not needed"""
    called = {x.get("fn") for f in P.fn.values() if f.get("inrepo") for x in facts.walk(f.get("body")) if x.get("k") == "call"}
    out = {}
    for n, event in METHODS.items():
        fs = [f for f in P.byqn("hext::Parser::" + n) if f.get("has_body")]
        if fs and fs[0]["id"] in called:
            out[event] = fs[0]
        elif event != "open":
            raise AnalysisBroken("hext::Parser::%s is not used" % n)
    return out


def check_stack(R, P, E, M):
    import copy
    from .. import stackeval
    K = {"any": consts_of(P, "hext::HtmlTag", "ANY"), "unknown": consts_of(P, "hext::HtmlTag", "UNKNOWN")}
    g = [v for n, e in P.enums.items() if n.endswith("GumboTag") or n == "GumboTag" for c, v in e["consts"] if c == "GUMBO_TAG_UNKNOWN"]
    if g and g[0] != K["unknown"]:
        raise AnalysisBroken("HtmlTag::UNKNOWN is not Gumbo's")
    parse = P.one("hext::Parser::parse", lambda f: f.get("has_body"))
    fs = stack_functions(P, M)
    fs["end"] = None

    def outcomes(f, event, S, name):
        todo, res = [[]], []
        while todo:
            ch = todo.pop()
            n = len(ch)
            T = copy.deepcopy(S)
            ev = stackeval.StackEval(P, E, ch, T, K)
            out = ("ok", None)
            try:
                if f is not None:
                    args = [("name", name)] if name else []
                    r = ev.inline(f, ("this",), args)
                else:
                    r = None
                    try:
                        for s in M.tail:
                            ev.run(s)
                        out = ("ub", "the end of parse() is reached without a return", None)
                    except absx.Return as x:
                        r = ev.rv(x.v)
                        out = ("ok", r)
            except absx.Thrown as t:
                out = ("throw", t.typ, t.where or ev.line)
            except absx.UB as u:
                out = ("ub", u.what, u.where or ev.line)
            for i in range(n, len(ev.asked)):
                for c in range(1, ev.asked[i][0]):
                    todo.append(ch[:i] + [c])
            res.append((out, T))
            if len(res) > 256:
                raise AnalysisBroken("too many branches")
        return res
    cases = 0
    reported = set()
    for event, f in sorted(fs.items(), key=lambda x: x[0]):
        where = f if f is not None else parse
        R.fn(where)
        for S0 in stackeval.stacks():
            top = S0.vec.items
            work = S0.slots[top[-1]][1]
            if event == "tag" and not work.items:
                continue
            variants = [(None, None)]
            if event == "tag":
                variants = [(n, None) for n in NAMES]
            elif event == "close":
                variants = [(n, r) for n in NAMES for r in (("*", "K1", "U1") if work.items else (None,))]
            for name, rule in variants:
                S = copy.deepcopy(S0)
                if rule is not None:
                    r = S.slots[S.slots[S.vec.items[-1]][1].items[-1]][1]
                    S.rules[r]["tag"], S.rules[r]["name"] = Model.ident(rule, K)
                elif event == "tag":
                    r = S.slots[S.slots[S.vec.items[-1]][1].items[-1]][1]
                    S.rules[r]["tag"], S.rules[r]["name"] = K["any"], NULL
                ref = copy.deepcopy(S)
                want = ("ok", None)
                try:
                    want = ("ok", getattr(Model(ref, K), event)(*([name] if name else [])))
                except Wrong:
                    want = ("throw",)
                cases += 1
                for got, T in outcomes(f, event, S, name):
                    bad = None
                    line = got[2] if len(got) > 2 else None
                    if got[0] == "ub":
                        bad = ("ub", got[1])
                    elif got[0] == "throw" and not E.isa(got[1], "hext::SyntaxError"):
                        bad = ("type", "%s is raised" % got[1])
                    elif got[0] == "throw" and want[0] == "ok":
                        bad = ("rejects", "a well-formed construct is rejected")
                    elif got[0] == "ok" and want[0] == "throw":
                        bad = ("accepts", "a misplaced construct is accepted")
                    elif got[0] == "ok":
                        if event == "end" and got[1] != want[1]:
                            bad = ("result", "the rule returned is not the first rule of the script")
                        elif T.log != ref.log:
                            bad = ("tree", "rules are attached as %s instead of %s" % (attached(T.log), attached(ref.log)))
                        elif event != "end" and T.dump() != ref.dump():
                            bad = ("stack", "the rule stacks become %s instead of %s" % (T.describe(), ref.describe()))
                        elif event == "tag" and T.rules != ref.rules:
                            bad = ("tag", "the opening tag of the rule is not recorded")
                    what = "%s on stacks %s%s" % (TITLE[event], S0.describe(), "" if rule is None else ", <%s> is open" % EXAMPLE[rule])
                    if name:
                        what += ", name " + EXAMPLE[name]
                    if bad is None:
                        continue
                    key = "C02|%s|%s|%s" % (event, bad[0], bad[1])
                    if key in reported:
                        continue
                    reported.add(key)
                    R.violation("stack", what, "%s:%s: %s: %s" % (rel(where["loc"]).split(":")[0], lineno(line), what, bad[1]), key)
    R.ok("stack", "%d cases of the %d stack operations" % (cases, len(fs)))
    return cases


TITLE = {"open": "opening tag", "pop": "end of an element", "nest": "'{'", "unnest": "'}'", "tag": "name of an opening tag",
         "close": "closing tag", "end": "end of the input"}
EXAMPLE = {"*": "*", "K1": "a", "K2": "b", "U1": "x-y", "U2": "x-z"}


def attached(log):
    return ", ".join("%s(%s to %s)" % (a, c, b) for a, b, c in log) or "nothing"


def lineno(l):
    return str(l).split(":")[0] if l else "?"


def consts_of(P, name, c):
    for n, v in (P.enums.get(name) or {}).get("consts", []):
        if n == c:
            return v
    raise AnalysisBroken("enumerator %s::%s not found" % (name, c))


# ---------------------------------------------------------------- entry points
def entry_points(R, P, E):
    """every ParseHext parses exactly the text it is given"""
    for f in P.byqn("hext::ParseHext"):
        if not f.get("has_body"):
            continue
        R.fn(f)
        made = []

        def ctor(ev, rec, vals):
            made.append(vals)
        ev = EntryEval(P, E, f)
        what = "ParseHext(%s)" % ", ".join(p["t"] for p in f["params"])
        try:
            ev.top()
        except absx.Thrown:
            continue
        begin, size = ev.arg(0), None
        t0 = f["params"][0]["t"]
        good = False
        if len(ev.made) == 1 and len(ev.parsed) == 1 and len(ev.made[0]) >= 2:
            b, e = ev.made[0][:2]
            if "char *" in t0:
                size = ev.arg(1) if len(f["params"]) > 1 else None
                good = b == begin and isinstance(e, tuple) and e[:2] == ("op", "+") and e[2] == begin and \
                    (e[3] == size if size is not None else str(e[3][1]).rsplit("::", 1)[-1] in ("strlen", "length") and e[3][-1] == begin if isinstance(e[3], tuple) else False)
            else:
                good = str(b) != str(e) and flat_has(b, begin) and flat_has(e, begin)
        R.check("entry", good, what, "%s: the parser is not created for exactly the text given" % what, "C03|entry|%s" % what)
    # the parser's constructor
    f = P.one("hext::Parser::Parser", lambda f: f.get("has_body") and len(f["params"]) == 2)
    R.fn(f)
    ev = EntryEval(P, E, f)
    ev.ctor()
    g = lambda n: ev.st.get(("this", n))
    R.check("entry", g("p_begin_") == ev.arg(0) and g("pe") == ev.arg(1) and g("eof") == ev.arg(1), "Parser::Parser",
            "Parser::Parser does not keep the range it is given", "C03|ctor")


def flat_has(v, x):
    return any(y == x for y in flatten(v))


class EntryEval(absx.Eval):
    def __init__(self, P, E, f):
        super().__init__(P, E, {}, [], {})
        self.f, self.made, self.parsed = f, [], []
        for i, p in enumerate(f["params"]):
            self.st[("var", p["id"])] = self.arg(i)
        self.anchors["hext::Parser::parse"] = self.parse

    def parse(self, ev, e, f):
        if absx.skip(e.get("obj") or {}).get("k") != "var":
            self.ev(e["obj"])  # a temporary parser
        self.parsed.append(1)
        return ("rule",)

    def arg(self, i):
        return ("arg", i)

    def top(self):
        try:
            self.run(self.f["body"])
        except absx.Return:
            pass

    def ctor(self):
        for i in self.f.get("inits") or []:
            if i.get("field"):
                self.write(("this", i["field"]), self.rv(self.ev(i["e"])))
        self.run(self.f.get("body"))

    def e_construct(self, e):
        if e.get("rec") == "hext::Parser":
            self.made.append(tuple(self.rv(self.ev(a)) for a in e.get("args") or []))
            return ("parser",)
        return super().e_construct(e)


# ---------------------------------------------------------------- checks
def prepare(R):
    P = program()
    E = escape.Escapes(P)
    return P, E


def product(R, P, E, isolate):
    """the product of automaton and documentation; None when the automaton cannot be analysed"""
    try:
        X = Product(P, E, isolate)
    except loopeval.Stuck as s:
        return str(s)
    R.notes["automaton"] = {"states": X.M.n, "actions": len(X.M.code), "reference_nodes": X.G.n, "product_states": X.states, "transitions_compared": X.steps,
                            "characters_told_apart": len(X.reps), "isolated": isolate}
    R.fn(X.f)
    for a in sorted(set(X.M.code) - X.used):
        R.notes.setdefault("actions_never_run", []).append(a)
    return X


def report(R, X, rule, prop, pick):
    bad = 0
    for (kind, what), (line, example, extra) in X.bad.items():
        if not pick(kind, what, line, extra):
            continue
        bad += 1
        text = example if len(example) < 200 else "..." + example[-200:]
        R.violation(rule, "Parser.cpp:%s, after %r" % (lineno(line), text), "%s, e.g. after %r" % (what, text), "%s|%s|%s" % (prop, kind, what))
    R.ok(rule, "%d states, %d transitions" % (X.states, X.steps)) if not bad else None
    return bad


def structural(kind, extra):
    if extra == "unfinished":
        return True
    return kind == "effect" and any(x and x[0] in STRUCT for x in extra)


def guarded(c):
    """sources in a form the analysis does not know are not judged"""
    def run(R):
        try:
            return c(R)
        except AnalysisBroken as e:
            R.skip(c.__name__.upper(), str(e))
            return R.finish("other", "the analysis was not completed", TRUST)
    run.__name__ = c.__name__
    return run


@guarded
def c01(R):
    R.rule("exceptions", "only SyntaxError (and memory exhaustion) can leave ParseHext, for every path through the call graph", 1)
    R.rule("termination", "no reachable function ends the process, and no exception leaves a noexcept function", 50)
    R.rule("automaton", "the automaton's actions raise nothing else, use no empty value, only convert texts that are numbers, and never hold the reading position", 1)
    R.rule("stacks", "the stack operations raise nothing but SyntaxError and never use an element of an empty stack", 1)
    P, E = prepare(R)
    X = product(R, P, E, False)
    discharged = set()
    if isinstance(X, str):
        R.violation("automaton", "Parser::parse", X, "C01|loop")
    else:
        bad = report(R, X, "automaton", "C01", lambda kind, what, line, extra: kind in ("ub", "exception", "number", "moves"))
        for line, good in X.conversions.items():
            if good == {True}:
                for f in P.fn.values():
                    if f.get("inrepo") and f.get("has_body") and f["qn"].startswith("hext::"):
                        discharged.add((f["id"], line, "std::invalid_argument"))
        S = Sub(R, "stacks", lambda key: "|ub|" in key or "|type|" in key)
        try:
            check_stack(S, P, E, X.M)
        except AnalysisBroken as e:
            # what the stack operations do is not known: nothing is concluded from it
            R.skip("rule stacks", str(e))
        if not S.bad:
            for n in list(METHODS) + ["previous_stack", "top_stack", "cur_rule"]:
                for f in P.byqn("hext::Parser::" + n):
                    for x in facts.walk(f.get("body")):
                        if x.get("k") == "call" and x.get("l") and P.fn.get(x.get("fn")) and P.sq(P.fn[x["fn"]]) == "std::vector::at":
                            discharged.add((f["id"], x["l"], "std::out_of_range"))
    E = escape.Escapes(P, discharged=discharged)
    roots = [f for f in P.byqn("hext::ParseHext") if f.get("has_body")] + [f for f in P.byqn("hext::Parser::Parser") if f.get("has_body")]
    if not roots:
        raise AnalysisBroken("hext::ParseHext not found")
    for f in roots:
        bad = {t: w for t, w in E.esc[f["id"]].items() if t != escape.MEMORY and not E.isa(t, "hext::SyntaxError")}
        for t, w in bad.items():
            R.violation("exceptions", w[-1], "%s can leave %s: %s" % ("an exception of unknown type" if t == escape.ANY else t, f["qn"], " -> ".join(w)),
                        "C01|%s|%s" % (t, w[-1].split(" ", 1)[-1]))
        if not bad:
            R.ok("exceptions", "%s: only %s" % (f["qn"], ", ".join(E.esc[f["id"]]) or "nothing"))
    reach = E.reach([f["id"] for f in roots])
    for k in reach:
        f = P.fn[k]
        if k in E.bodies:
            R.fn(f)
            ends = E.ends.get(k)
            if ends:
                for name, l in sorted(ends):
                    R.violation("termination", "%s:%s" % (f["qn"], l), "%s is called; reached via %s" % (name, " -> ".join(reach[k])), "C01|end|%s" % f["qn"])
            else:
                R.ok("termination", f["qn"])
    for f, t, w in E.terminates(reach):
        R.violation("termination", w[-1], "%s can leave %s, which is noexcept: %s" % (t, f["qn"], " -> ".join(w)), "C01|noexcept|%s" % f["qn"])
    R.notes["library_functions_assumed_not_to_throw"] = sorted(E.assumed)[:300]
    return R.finish("other", "Fixpoint of the exceptions that may leave each function, over the call graph from ParseHext; exceptions of number conversions and "
                    "of checked indexing are discharged by the product of the automaton with the documented syntax and by shape analysis of the rule stacks.", TRUST)


class Sub:
    """forwards violations of some kinds to a rule"""

    def __init__(self, R, rule, pick):
        self.R, self.rule, self.pick, self.bad = R, rule, pick, 0

    def violation(self, rule, what, msg, key):
        if self.pick(key):
            self.bad += 1
            self.R.violation(self.rule, what, msg, key.replace("C02", self.R.prop))

    def ok(self, rule, what):
        self.R.ok(self.rule, what)

    def fn(self, f):
        self.R.fn(f)


@guarded
def c02(R):
    R.rule("stack", "each operation on the rule stacks does to every well-formed stack what the documentation says, or raises SyntaxError", 1)
    R.rule("structure", "the automaton performs exactly the stack operations of the tags and braces read, in their order, and rejects unfinished input", 1)
    P, E = prepare(R)
    X = product(R, P, E, True)
    if isinstance(X, str):
        R.violation("structure", "Parser::parse", X, "C02|loop")
    else:
        report(R, X, "structure", "C02", lambda kind, what, line, extra: structural(kind, extra))
        n = 0
        try:
            n = check_stack(R, P, E, X.M)
        except AnalysisBroken as e:
            R.skip("rule stacks", str(e))
        R.check("stack", initial_stacks(P, E, X.M), "the stacks parse() starts with", "parse() does not start with one empty result stack and one empty work stack", "C02|initial")
        R.notes["stack_cases"] = n
    return R.finish("other", "Product of the parser's automaton with the documented syntax, comparing the sequence of stack operations; shape analysis of the "
                    "functions that perform them over all well-formed stacks, of which the code can see only the upper levels.", TRUST)


def initial_stacks(P, E, M):
    from .. import stackeval
    S = stackeval.Stack()
    ev = stackeval.StackEval(P, E, [], S, {})
    # whatever an earlier call left behind
    S.vec.rest = "*"
    for s in M.head:
        ev.run(s)
    return S.vec.rest == 0 and [(len(S.slots[x][1].items), S.slots[x][1].rest) for x in S.vec.items] == [(0, 0), (0, 0)]


@guarded
def c03(R):
    R.rule("syntax", "in every state the automaton accepts exactly the characters the documented syntax allows", 1)
    R.rule("effects", "for every construct the rule receives exactly the documented objects with the arguments written in it, in order", 1)
    R.rule("entry", "the parsing functions hand the whole text to the parser", 3)
    P, E = prepare(R)
    X = product(R, P, E, True)
    if isinstance(X, str):
        R.violation("syntax", "Parser::parse", X, "C03|loop")
    else:
        report(R, X, "syntax", "C03", lambda kind, what, line, extra: kind in ("accepts", "rejects", "moves"))
        report(R, X, "effects", "C03", lambda kind, what, line, extra: kind == "effect")
    entry_points(R, P, E)
    return R.finish("other", "Exhaustive product of the parser's automaton (tables and actions read from the sources) with a transducer written from the "
                    "documentation; texts are tracked by the part of the construct they were read from.  Everything read before a construct is forgotten at "
                    "its beginning here; see C04.", TRUST)


@guarded
def c04(R):
    R.rule("independence", "with everything remembered from earlier constructs, the automaton accepts and does the same as with nothing remembered", 1)
    P, E = prepare(R)
    X = product(R, P, E, False)
    if isinstance(X, str):
        R.skip("C04", X)
        return R.finish("other", "the analysis was not completed", TRUST)
    if X.bad:
        # what is wrong in isolation, too, is no influence of one construct on another
        Y = Product(P, E, True)
        alone = set(Y.bad) | {(k, v[0]) for (k, _), v in Y.bad.items()}
        full = Y.enough()
        report(R, X, "independence", "C04", lambda kind, what, line, extra: not full and (kind, what) not in alone and (kind, line) not in alone and kind not in ("number", "moves"))
        if full:
            R.skip("C04", "the automaton is wrong in isolation already")
    else:
        R.ok("independence", "%d states, %d transitions" % (X.states, X.steps))
    return R.finish("other", "The product of C03 with the parser's variables kept from construct to construct, compared with the product in which they are reset "
                    "at the beginning of each construct.", TRUST)
