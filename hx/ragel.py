"""Reads the table-driven automaton of the parser from the syntax tree."""
from . import facts
from .facts import AnalysisBroken


def array(P, name):
    g = [v for v in P.globals.values() if v["name"] == name and v.get("init")]
    if len(g) != 1:
        raise AnalysisBroken("table %s of the parser not found" % name)
    return [a.get("cv", a.get("v")) for a in g[0]["init"]["args"]]


def const(P, name):
    g = [v for v in P.globals.values() if v["name"] == name and v.get("init")]
    if len(g) != 1:
        raise AnalysisBroken("constant %s of the parser not found" % name)
    i = g[0]["init"]
    return i.get("cv", i.get("v"))


class Machine:
    def __init__(self, P, f, prefix="hext"):
        self.P, self.f = P, f
        self.start, self.error = const(P, prefix + "_start"), const(P, prefix + "_error")
        a = lambda n: array(P, "_%s_%s" % (prefix, n))
        self.acts = a("actions")
        ko, sl, rl, io = a("key_offsets"), a("single_lengths"), a("range_lengths"), a("index_offsets")
        keys, ind, targs, ta, eof = a("trans_keys"), a("indicies"), a("trans_targs"), a("trans_actions"), a("eof_actions")
        n = len(ko)
        if not (len(sl) == len(rl) == len(io) == len(eof) == n):
            raise AnalysisBroken("the tables of the parser differ in length")
        self.n = n
        self.table = []
        self.eof = []
        try:
            for s in range(n):
                k = ko[s]
                singles = keys[k:k + sl[s]]
                ranges = keys[k + sl[s]:k + sl[s] + 2 * rl[s]]
                if len(singles) != sl[s] or len(ranges) != 2 * rl[s]:
                    raise IndexError
                if any(x >= y for x, y in zip(singles, singles[1:])):
                    raise AnalysisBroken("keys of state %d are not sorted" % s)
                row = {"single": {}, "ranges": [], "default": None}
                for i, c in enumerate(singles):
                    row["single"][c] = self.trans(ind[io[s] + i], targs, ta)
                for i in range(rl[s]):
                    row["ranges"].append((ranges[2 * i], ranges[2 * i + 1], self.trans(ind[io[s] + sl[s] + i], targs, ta)))
                row["default"] = self.trans(ind[io[s] + sl[s] + rl[s]], targs, ta)
                self.table.append(row)
                self.eof.append(self.actions(eof[s]))
        except IndexError:
            raise AnalysisBroken("the tables of the parser refer outside of each other")
        self.find_actions()

    def actions(self, off):
        n = self.acts[off]
        r = tuple(self.acts[off + 1:off + 1 + n])
        if len(r) != n:
            raise IndexError
        return r

    def trans(self, i, targs, ta):
        if not 0 <= targs[i] < self.n_states(targs):
            raise IndexError
        return (targs[i], self.actions(ta[i]) if ta[i] else ())

    def n_states(self, targs):
        return self.n

    def step(self, s, c):
        if self.over is not None:
            if s == self.error:
                return (s, ())
            import bisect
            return self.over[s, self.reps[bisect.bisect_right(self.reps, c) - 1]]
        row = self.table[s]
        t = row["single"].get(c)
        if t is not None:
            return t
        for lo, hi, t in row["ranges"]:
            if lo <= c <= hi:
                return t
        return row["default"]

    def boundaries(self):
        """characters at which the behaviour of some state may change"""
        out = set()
        for row in self.table:
            for c in row["single"]:
                out |= {c, c + 1}
            for lo, hi, _ in row["ranges"]:
                out |= {lo, hi + 1}
        return out

    def find_actions(self):
        """the switch statements over action numbers: number -> statements"""
        self.code, self.eofcode, self.head, self.tail = {}, {}, [], []
        sw = []
        body = self.f["body"]["b"]
        first = last = None
        for i, s in enumerate(body):
            found = [x for x in facts.walk(s) if x.get("k") == "switch"]
            if any(x.get("k") in ("goto", "label") for x in facts.walk(s)):
                first = i if first is None else first
                last = i
                sw += found
        if first is None or len(sw) not in (1, 2):
            raise AnalysisBroken("the automaton's loop was not found in %s" % self.f["qn"])
        self.head, self.tail = body[:first], body[last + 1:]
        for tgt, s in zip((self.code, self.eofcode), sw):
            cur = []
            for x in s["b"]["b"]:
                while x.get("k") in ("case", "default"):
                    if x["k"] == "default":
                        cur = []
                    else:
                        # a case without break before it would fall through
                        if cur is not None and cur and tgt[cur[-1]] is not None and not self.ends(tgt[cur[-1]]):
                            raise AnalysisBroken("action %s falls through" % cur[-1])
                        v = x.get("v", x.get("lo", {}).get("v"))
                        tgt[v] = []
                        cur = [v]
                    x = x.get("s") or {"k": "null"}
                if cur:
                    tgt[cur[-1]].append(x)
        self.loop = body[first:last + 1]
        self.over = None
        if not self.shape(self.loop):
            self.evaluate()

    def evaluate(self):
        """the loop is not ragel's: its transitions are found by constant evaluation"""
        from . import loopeval
        L = loopeval.Loop(self.P, self.loop)
        self.over = {}
        reps = sorted(c for c in self.boundaries() | {-128} if -128 <= c <= 127)
        for s in range(self.n):
            if s == self.error:
                continue
            for c in reps:
                t, acts = L.run(s, c)
                if not 0 <= t < self.n:
                    raise AnalysisBroken("the automaton's loop leaves the table in state %d" % s)
                self.over[s, c] = (t, acts)
            t, acts = L.run(s, None)
            self.eof[s] = acts
        self.reps = reps

    @staticmethod
    def ends(stmts):
        return bool(stmts) and any(s.get("k") in ("break", "return") for s in stmts)

    # ------------------------------------------------------------ form of the loop
    def shape(self, stmts):
        """the loop must be ragel's: cs = start; keys are searched, then actions run, then p advances"""
        def idle(y):
            if not isinstance(y, dict):
                return False
            if y.get("k") == "null":
                return True
            if y.get("k") == "expr":
                e = y["e"]
                while e.get("k") in ("cast", "icast", "paren"):
                    e = e["e"]
                return e.get("k") in ("int", "var", "null")
            return False

        def norm(x):
            if isinstance(x, list):
                return [norm(y) for y in x if not idle(y)]
            if not isinstance(x, dict):
                return x
            k = x.get("k")
            if k in ("icast", "cast") and x.get("e"):
                return norm(x["e"])
            if k == "var":
                return x.get("name") if "cv" not in x else x["cv"]
            if k == "member":
                return x["f"]
            if k == "int":
                return x["v"]
            if k == "switch":
                return ["switch", norm(x["c"])]
            if k == "block":
                ys = [norm(y) for y in x["b"] if not idle(y)]
                return ys[0] if len(ys) == 1 else ys
            if k == "decl":
                return ["decl"] + [[v["name"], norm(v.get("init"))] for v in x["vars"]]
            if k == "expr":
                return norm(x["e"])
            if k in ("binop", "assign"):
                return [x.get("op", "="), norm(x["l_"]), norm(x["r_"])]
            if k == "unop":
                return [x["op"] + ("post" if x.get("post") or x.get("postfix") else ""), norm(x["e"])]
            if k == "goto":
                return ["goto", x["label"]]
            if k == "label":
                return ["label", x["label"], norm(x["s"])]
            if k == "index":
                return ["[]", norm(x.get("a") or x.get("base")), norm(x.get("b") or x.get("idx"))]
            return [k] + [norm(v) for n, v in sorted(x.items()) if isinstance(v, (dict, list)) and n not in ("t",)]
        self.normal = norm(stmts)
        import hashlib
        import json
        self.digest = hashlib.sha256(json.dumps(self.normal).encode()).hexdigest()[:16]
        return self.digest in KNOWN


#: the loop ragel generates for -T0; its transitions are those of the tables (checked with loopeval)
KNOWN = {"2e3f10b01cbec3d5"}
