"""C28: every loop and recursion of matching, serialising and text processing makes progress."""
from .. import interp, spec, models
from ..dom import *
from ..facts import AnalysisBroken, rel, short, walk
from .safety import program
from .matching import executed, at, facts_of, TRUST
from .rulematch import MRO, MRANGE, MRG, RMNR, SMNR, FMR, NEXT, arg, param, nextof

ORDER = {"back": 0, "weak": 1, "same": 2, "strict": 3}
EXCLUDED = ("Parser.cpp", "Parser.h", "PatternValues", "SyntaxError", "ParseHext")


def worst(*rs):
    """the least progress among alternatives"""
    if any(r is None for r in rs):
        return None
    r = min(rs, key=lambda x: ORDER[x])
    if r == "same" and len(set(rs)) > 1:
        return "weak"
    return r


def after(P, X, s, t, base, depth=0):
    """how does t lie relative to base in document or rule order: strict later (or null: the end), weak, same, back or None"""
    if depth > 12 or t is None:
        return None
    if t == base or s.decide(mk_eq(t, base)) is True:
        return "same"
    if s.decide(mk_eq(t, I0)) is True:
        # the end: progress unless the variable was there before
        return "strict" if present(P, s, base) else "weak"

    def rec(x):
        return after(P, X, s, x, base, depth + 1)

    def plus(r):
        return "strict" if r in ("same", "weak", "strict") else r
    if t[0] == "ap" and t[1] in (NEXT, MRG, MRO, MRANGE, FMR):
        ev = event_of(X, s, t)
        if t[1] == NEXT:
            return plus(rec(t[2]))
        if ev is None:
            return None
        if t[1] == MRG:
            return plus(rec(arg(P, ev, "Node")))
        if t[1] == FMR:
            b, e = ev[4][0], ev[4][1]
        else:
            b, e = arg(P, ev, "Node"), arg(P, ev, "Node", 1)
        r = rec(b)
        r = "weak" if r == "same" else r
        if s.decide(mk_eq(t, e)) is False or s.decide(mk_eq(e, I0)) is True:
            return r
        return worst(r, rec(e)) if r is not None else None
    x = nextof(t)
    if x is not None:
        return plus(rec(x))
    if t[0] == "rd" and t[1][0] == "F" and t[1][2] == "parent" and t[1][1][0] == "P":
        r = rec(t[1][1][1])
        return "back" if r in ("same", "weak", "back") else None
    c = child_of(t)
    if c is not None:
        x, i = c
        if x[0] == "rd" and x[1][0] == "F" and x[1][2] == "parent" and x[1][1][0] == "P":
            # sibling of y
            y = x[1][1][1]
            own = ("rd", F(("P", y), "index_within_parent"))
            if i[0] == "op" and i[1] == "w-" and i[2] == own and s.bounds(i[3])[0] is not None and s.bounds(i[3])[0] >= 1:
                return "back" if rec(y) in ("same", "weak", "back") else None
            d = lin_comb(to_lin(i), 1, to_lin(own), -1)
            if d[1]:
                return None
            r = rec(y)
            return plus(r) if d[0] > 0 else r if d[0] == 0 else "back" if r in ("same", "weak", "back") else None
        return plus(rec(x))
    if t[0] == "phi":
        for L in X.loops.values():
            for loc, (phi, ty_, entry) in L.phis.items():
                if phi == t:
                    if phi == base:
                        return "same"
                    r = rec(entry)
                    if r is None:
                        return None
                    rs = [after(P, X, b, b.load(loc, ty_), phi, depth + 1) for b in L.backs]
                    if any(x is None for x in rs):
                        return None
                    if any(x == "back" for x in rs):
                        return "back"
                    if r in ("same", "weak") and rs and all(x == "strict" for x in rs) and moved(P, X, s, L):
                        return "strict"
                    return "weak" if r == "same" else r
    if t[0] == "rd" and t[1][0] == "F" and t[1][2] == "$p" and t[1][1][0] == "F" and t[1][1][2] == "first_child_" and t[1][1][1][0] == "P":
        return plus(rec(t[1][1][1][1]))
    if t[0] == "addr" and t[1][0] == "I" and t[1][1][0] == "F" and t[1][1][2] == "nested_" and t[1][1][1][0] == "P":
        return plus(rec(t[1][1][1][1]))
    return None


def present(P, s, base):
    """is base known not to be the end?"""
    if s.decide(mk_eq(base, I0)) is False:
        return True
    for e in trace_list(s.trace):
        if e[0] == "call" and e[1] in (MRO, MRANGE, MRG, NEXT) and s.decide(mk_eq(e[5], I0)) is False:
            # nothing but the end is found from the end on
            if arg(P, e, "Node") == base and (e[1] in (NEXT, MRG) or s.decide(mk_eq(e[5], arg(P, e, "Node", 1))) is False):
                return True
    return False


def moved(P, X, s, L):
    """has at least one round of L been made, in s?"""
    for loc, (phi, t, entry) in L.phis.items():
        if s.decide(mk_eq(phi, entry)) is False:
            return True
        if t and is_ptr(t) and "Rule" in t:
            # assume not: then a search for a mandatory rule in [x, x) gives x
            y = spec.assume_all(s, [])
            if not y.assume(mk_eq(phi, entry), True) or y.dead:
                return True
            dead = False
            for e in trace_list(s.trace):
                if e[0] == "call" and e[1] == FMR and y.decide(mk_eq(e[4][0], e[4][1])) is True:
                    if not y.assume(mk_eq(e[5], e[4][1]), True) or y.dead:
                        dead = True
                        break
            if dead:
                return True
    return False


def event_of(X, s, t):
    for e in trace_list(s.trace):
        if e[0] == "call" and e[5] == t:
            return e
    for L in X.loops.values():
        for b in L.backs + L.exits:
            for e in trace_list(b.trace, L.start):
                if e[0] == "call" and e[5] == t:
                    return e
    return None


def child_of(t):
    """(element's node, index) if t is an entry of a list of children"""
    if t[0] == "rd" and t[1][0] == "I" and t[1][1][0] == "P":
        d = t[1][1][1]
        if d[0] == "rd" and d[1][0] == "F" and d[1][2] == "data" and d[1][1][0] == "F" and d[1][1][2] == "children":
            x = d[1][1][1]
            if x[0] == "F" and x[2] in ("element", "document") and x[1][0] == "F" and x[1][2] == "v":
                x = x[1][1]
            return (x[1] if x[0] == "P" else ("addr", x)), t[1][2]
        if d[0] == "rd" and d[1][0] == "F" and d[1][2] == "data" and d[1][1][0] == "P":
            return d[1][1][1], t[1][2]  # of a list given to the function: its owner
    return None


def node_of(a):
    """the node an argument stands for: pointer, reference to a node, or reference to its element"""
    if a is None:
        return None
    if interp.is_lv(a):
        a = a[1]
    elif a[0] in ("addr", "obj"):
        a = a[1]
    else:
        return a
    x = a
    if x[0] == "F" and x[2] == "children":
        x = x[1]  # a list of children stands for its owner
    if x[0] == "F" and x[2] in ("element", "document", "text") and x[1][0] == "F" and x[1][2] == "v":
        x = x[1][1]
    return x[1] if x[0] == "P" else ("addr", x)


# ------------------------------------------------------------------ one loop
def number_step(P, X, L, b, loc, phi, t):
    """progress of an integer variable in one round: up, down, same, weak, free (bounded by nothing), None"""
    new = b.load(loc, t)
    if new == phi:
        return "same"
    c, ts = lin_comb(to_lin(new), 1, to_lin(phi), -1)
    if not ts:
        if c == 0:
            return "same"
        return ("up" if c > 0 else "down") if bounded(L, b, phi, c > 0, t) else "free"
    # division
    if new[0] == "op" and len(new) == 4 and new[1] in ("/", ">>") and new[2] == phi:
        lo = b.bounds(new[3])[0]
        if lo is None or lo < (2 if new[1] == "/" else 1):
            return "same" if b.decide(mk_eq(new[3], ("i", 1 if new[1] == "/" else 0))) is True else None
        return "down" if b.decide(mk_eq(phi, I0)) is False or b.decide(mk_eq(new, I0)) is False else "weak"
    # a position found at or behind the old one
    c, ts = to_lin(new)
    for x, k in ts:
        if k == 1 and x[0] == "ap" and str(x[1]).startswith("find") and len(x) >= 5:
            p = x[4]
            d = lin_comb(to_lin(p), 1, to_lin(phi), -1)
            rest = from_lin(lin_comb(to_lin(new), 1, to_lin(x), -1))
            if d[1] or d[0] < 0:
                continue
            lo = b.bounds(rest)[0]
            if d[0] >= 1 or (lo is not None and lo >= 1):
                return "up"
            if lo is not None and lo == 0 or b.le(I0, rest):
                return "weak"
            return "weak"
    return None


def from_lin(l):
    c, ts = l
    if not ts:
        return ("i", c)
    if c == 0 and len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0]
    return ("lin", c, ts)


def bounded(L, b, phi, up, t):
    lo, hi = b.bounds(phi)[:2]
    r = int_range(strip_cv(t))
    th = r[1] if r else None
    mine = {p for p, t, e in L.phis.values()}
    if up:
        for r in b.rels:
            c, ts = r
            if any(x == phi and k > 0 for x, k in ts) and not any(x != phi and x in mine for x, k in ts):
                return True
        if hi is not None and hi < 2 ** 47 - 2 and (th is None or hi < th):
            return True
        return False
    for r in b.rels:
        c, ts = r
        if any(x == phi and k < 0 for x, k in ts) and not any(x != phi and x in mine for x, k in ts):
            return True
    return lo is not None and lo >= 1


def decisive(L):
    """variables of the loop that occur in conditions evaluated in a round"""
    out = set()

    def known(s):
        k = {x for a, d in s.dom.items() for x in [(a, repr(d))]}
        k |= {("ne", a, b) for a, b in s.nes}
        k |= {("rel", repr(r)) for r in s.rels}
        k |= {("eqc", a, repr(sorted(c, key=repr))) for a, c in s.eqs.items()}
        return k
    h = known(L.head)
    for s in L.backs + L.exits + [o[2] for o in L.others]:
        new = known(s) - h
        text = repr(sorted(new, key=repr))
        for loc, (phi, t, entry) in L.phis.items():
            if repr(phi) in text:
                out.add(loc)
    return out


def loop_ok(P, X, L):
    """(True/False/None, explanation)"""
    if L.range is not None or L.node.get("k") == "rangefor":
        return True, "visits a container once"
    if not L.backs:
        return True, "at most one round"
    rows = []
    dec = decisive(L)
    unknown = False
    for b in L.backs:
        row = {}
        for loc, (phi, t, entry) in L.phis.items():
            t = t or ""
            if is_ptr(t) and ("Node" in t or "Rule" in t or "StringPipe" in t):
                row[loc] = after(P, X, b, b.load(loc, t), phi)
            elif t == "bool":
                row[loc] = "same" if b.load(loc, t) == phi or loc not in dec else None
                if row[loc] is None:
                    a, z = b.decide(phi), b.decide(b.load(loc, t))
                    row[loc] = "same" if a is not None and a == z else "strict" if a is not None and z is not None else None
            elif is_ptr(t):
                n = number_step(P, X, L, b, loc, phi, t)
                row[loc] = n
            elif strip_cv(t) in INTS:
                row[loc] = number_step(P, X, L, b, loc, phi, t)
            else:
                row[loc] = None
        # direction of numbers must be the same in all rounds
        rows.append(row)
    for loc in L.phis:
        ds = {r[loc] for r in rows}
        if "up" in ds and "down" in ds:
            for r in rows:
                if r[loc] in ("up", "down"):
                    r[loc] = "back"
        else:
            for r in rows:
                if r[loc] in ("up", "down"):
                    r[loc] = "strict"
    # lexicographic ranking
    left = list(range(len(rows)))
    cand = set(L.phis)
    while left:
        for loc in sorted(cand, key=repr):
            if all(rows[i].get(loc) in ("same", "weak", "strict") for i in left) and any(rows[i][loc] == "strict" for i in left):
                left = [i for i in left if rows[i][loc] != "strict"]
                cand.discard(loc)
                break
        else:
            break
    if not left:
        return True, "every round advances %s" % ", ".join(sorted({show(l) for l in L.phis if any(r[l] == "strict" for r in rows)})[:4])
    for i in left:
        r = rows[i]
        if not any(r[l] == "strict" for l in L.phis) and not any(r[l] is None and l in dec for l in L.phis):
            return False, "a round can end without any progress: %s" % ", ".join("%s becomes %s (%s)" % (show(l), show(L.backs[i].load(l, L.phis[l][1]))[:80], r[l]) for l in L.phis if l in dec and r[l])
    for i in left:
        r = rows[i]
        backs = [l for l in L.phis if r[l] == "back" and l in dec]
        if backs and not any(r[l] is None and l in dec for l in L.phis) and not any(r[l] == "strict" and l in dec for l in L.phis):
            return False, "a round can go back: %s" % ", ".join(show(l) for l in backs)
    return None, "progress is not evident"


INTS = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "unsigned char", "signed char", "long long", "unsigned long long"}


def c28(R):
    P = program()
    R.rule("loops progress", "in every round of every loop some variable that ends the loop advances and none before it (lexicographically) goes back", 20)
    R.rule("searches advance", "the functions that return the next node to look at return the end, or a node not before (for groups: behind) the one they were given", 8)
    R.rule("recursion descends", "every call that closes a cycle of calls is made for a node or rule strictly behind or below the caller's own", 6)
    todo = []
    for f in sorted(P.repo_functions(), key=lambda f: f["loc"]):
        if not f.get("has_body") or "/libhext/" not in f["loc"] or any(x in f["loc"] for x in EXCLUDED) or f.get("lambda"):
            continue
        todo.append(f)
    done = {}
    execs = {}
    cyc = cycles(P, todo)
    for f in todo:
        if not any(n.get("k") in ("for", "while", "do", "rangefor") for n in walk([f["body"]])) and f["id"] not in cyc and P.sq(f) != NEXT:
            continue
        X = executed(R, P, f)
        if X is None:
            continue
        execs[f["id"]] = X
        for L in sorted(X.loops.values(), key=lambda L: L.id):
            key = (L.fn["id"], L.line)
            ok, why = loop_ok(P, X, L)
            old = done.get(key)
            rank = {True: 0, None: 1, False: 2}
            if old is None or rank[ok] > rank[old[0]]:
                done[key] = (ok, why, L)
    for (fid, line), (ok, why, L) in sorted(done.items(), key=lambda kv: (kv[1][2].fn["qn"], str(kv[0][1]))):
        what = "%s, loop at %s" % (at(L.fn), line)
        if ok is None:
            R.skip(what, why)
        else:
            R.check("loops progress", ok, what, why)
    contracts(R, P, execs)
    recursion(R, P, execs, cyc)
    return R.finish("other", "Ranking arguments: on all abstract rounds of every loop the change of every variable is classified (strictly later "
                    "sibling, later rule, larger or smaller bounded number, later position found); a lexicographic order of variables must decrease.", TRUST)


def contracts(R, P, execs):
    for name in (NEXT, MRO, MRANGE, MRG, FMR):
        for f in P.byqn(name):
            X = execs.get(f["id"])
            if X is None:
                continue
            if name == FMR:
                begin, end = X.params[0], X.params[1]
            elif name in (NEXT, MRG):
                begin, end = param(X, "Node"), I0
            else:
                begin, end = param(X, "Node"), param(X, "Node", 1)
            for k, p in enumerate(X.returns):
                s, what = p.st, "%s, path %d" % (at(f), k + 1)
                if s.decide(mk_eq(p.ret, I0)) is True or s.decide(mk_eq(p.ret, end)) is True:
                    R.ok("searches advance", what)
                    continue
                r = after_or(P, X, s, p.ret, begin, end)
                if r is None:
                    R.skip(what, "position of %s is not evident" % show(p.ret)[:160])
                    continue
                good = r == "strict" if name in (NEXT, MRG) else r in ("same", "weak", "strict")
                R.check("searches advance", good, what, "returns %s, which may be %s %s" % (show(p.ret)[:120], "before" if r == "back" else "no later than", show(begin)))


def after_or(P, X, s, t, begin, end):
    """like after, where `end` is fine as well"""
    if s.decide(mk_eq(t, end)) is True:
        return "strict"
    r = after(P, X, s, t, begin)
    if r is not None:
        return r
    if t[0] == "phi":
        for L in X.loops.values():
            for loc, (phi, ty_, entry) in L.phis.items():
                if phi == t:
                    rs = [after_or(P, X, L.entry, entry, begin, end)] + [after_or(P, X, b, b.load(loc, ty_), begin, end) if b.load(loc, ty_) != phi else "same" for b in L.backs]
                    return worst(*rs)
    if t[0] == "ap" and t[1] in (MRO, MRANGE, FMR):
        ev = event_of(X, s, t)
        if ev is not None:
            b, e = (ev[4][0], ev[4][1]) if t[1] == FMR else (arg(P, ev, "Node"), arg(P, ev, "Node", 1))
            r = after(P, X, s, b, begin)
            r = "weak" if r == "same" else r
            re_ = "strict" if s.decide(mk_eq(e, end)) is True or s.decide(mk_eq(e, I0)) is True else after(P, X, s, e, begin)
            return worst(r, re_) if r and re_ else None
    return None


def cycles(P, todo):
    ids = {f["id"] for f in todo}
    calls = {f["id"]: {n["fn"] for n in walk([f["body"], f.get("inits")]) if n.get("fn") in ids} for f in todo}

    def reach(a):
        seen, st = set(), [a]
        while st:
            x = st.pop()
            for y in calls.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen
    rs = {i: reach(i) for i in ids}
    return {i: {j for j in rs[i] if i in rs[j]} for i in ids if i in rs[i]}


def recursion(R, P, execs, cyc):
    edges = {}
    for fid, group in cyc.items():
        f = P.fn[fid]
        X = execs.get(fid)
        if X is None or not any("Gumbo" in p["t"] for p in f["params"]):
            continue
        nodes = [X.params[i] for i, p in enumerate(f["params"]) if "Gumbo" in p["t"]]
        rules = [X.params[i] for i, p in enumerate(f["params"]) if "hext::Rule" in p["t"] and is_ptr(p["t"])]
        if f.get("record") == "hext::Rule":
            rules.append(("ap", "this"))
        base = nodes[0][1] if nodes[0][0] == "P" else nodes[0]
        for s, tr in traces(X):
            for e in tr:
                if e[0] != "call" or e[2] not in group:
                    continue
                g = P.fn[e[2]]
                gn = [a for p, a in zip(g["params"], e[4]) if "Gumbo" in p["t"]]
                gr = [a for p, a in zip(g["params"], e[4]) if "hext::Rule" in p["t"] and is_ptr(p["t"])]
                if not gn:
                    continue
                r = after(P, X, s, node_of(gn[0]), base)
                q = after(P, X, s, gr[0], rules[0]) if gr and rules else None
                edges.setdefault((fid, e[2]), set()).add((r, q, e[6][1]))
    # an edge is strict when on every path the node, or with a node not before, the rule is strictly later
    kind = {}
    for (a, b), ks in edges.items():
        rank = []
        for r, q, line in ks:
            if r == "strict" or r in ("same", "weak") and q == "strict":
                rank.append(("strict", line))
            elif r == "back":
                rank.append(("back", line))
            elif r is None:
                rank.append(("unknown", line))
            else:
                rank.append(("flat", line))
        kind[(a, b)] = rank
    flat = {}
    for (a, b), ks in kind.items():
        for k, line in ks:
            if k in ("flat", "back"):
                flat.setdefault(a, set()).add(b)

    def reaches(a, b):
        seen, st = set(), [a]
        while st:
            x = st.pop()
            if x == b:
                return True
            for y in flat.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return False
    for (a, b), ks in sorted(kind.items(), key=lambda kv: P.fn[kv[0][0]]["qn"]):
        for k, line in sorted(set(ks), key=str):
            what = "%s: call of %s" % (at(P.fn[a]), short(P.fn[b]["qn"]))
            if k == "unknown":
                R.skip(what, "argument is not classified")
            else:
                bad = k == "back" or k == "flat" and reaches(b, a)
                R.check("recursion descends", not bad, what, "the call at %s can be repeated for ever: it is made for %s" % (line, "an earlier node" if k == "back" else "the same node"))


def traces(X):
    for p in X.paths:
        yield p.st, p.trace
    for L in X.loops.values():
        for b in L.backs:
            yield b, trace_list(b.trace, L.start)
