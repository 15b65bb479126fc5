"""Constant evaluation of the automaton's loop: which transition does it make for a state and a character?

Tables are constants of the program; the only unknowns are the state and the character, which are enumerated."""
from .facts import AnalysisBroken


class Goto(Exception):
    def __init__(self, label):
        self.label = label


class Stuck(Exception):
    """the loop itself is wrong"""


class Done(Exception):
    pass


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Loop:
    LIMIT = 20000

    def __init__(self, P, stmts):
        self.P, self.stmts = P, stmts
        self.tables = {}

    def table(self, e):
        i = e.get("id")
        if i not in self.tables:
            g = self.P.globals.get(i)
            if g is None or not g.get("init"):
                raise AnalysisBroken("the automaton's loop uses %s" % e.get("name"))
            init = g["init"]
            if init.get("k") == "init":
                self.tables[i] = [a.get("cv", a.get("v")) for a in init["args"]]
            else:
                self.tables[i] = init.get("cv", init.get("v"))
        v = self.tables[i]
        return ("ptr", i, 0) if isinstance(v, list) else v

    def run(self, state, char):
        """(state after, actions) of one step; char None: at the end of the input"""
        self.mem = {("f", "cs"): state, ("f", "p"): ("p", 0), ("f", "pe"): ("end",), ("f", "eof"): ("end",)}
        self.state, self.char, self.acts, self.n = state, char, [], 0
        try:
            self.block(self.stmts)
        except Done:
            pass
        return self.mem[("f", "cs")], tuple(self.acts)

    # ------------------------------------------------------------ statements
    def block(self, ss):
        i = 0
        while i < len(ss):
            try:
                self.stmt(ss[i])
                i += 1
            except Goto as g:
                for j, s in enumerate(ss):
                    if self.labelled(s, g.label):
                        i = j
                        break
                else:
                    raise

    @staticmethod
    def labelled(s, l):
        while s.get("k") == "label":
            if s["label"] == l:
                return True
            s = s["s"]
        return False

    def stmt(self, s):
        self.n += 1
        if self.n > self.LIMIT:
            raise Stuck("the automaton's loop does not advance in state %d" % self.state)
        k = s["k"]
        if k == "block":
            self.block(s["b"])
        elif k == "expr":
            self.ev(s["e"])
        elif k == "decl":
            for v in s["vars"]:
                self.mem[v["id"]] = self.ev(v["init"]) if v.get("init") else None
        elif k == "if":
            if self.truth(self.ev(s["c"])):
                self.stmt(s["a"])
            elif s.get("b"):
                self.stmt(s["b"])
        elif k in ("while", "for"):
            if s.get("init"):
                self.stmt(s["init"])
            while s.get("c") is None or self.truth(self.ev(s["c"])):
                self.n += 1
                if self.n > self.LIMIT:
                    raise Stuck("the automaton's loop does not advance in state %d" % self.state)
                try:
                    self.stmt(s["b"])
                except Brk:
                    break
                except Cont:
                    pass
                if s.get("inc"):
                    self.ev(s["inc"])
        elif k == "do":
            while True:
                try:
                    self.stmt(s["b"])
                except Brk:
                    break
                except Cont:
                    pass
                if not self.truth(self.ev(s["c"])):
                    break
        elif k == "label":
            self.stmt(s["s"])
        elif k == "goto":
            raise Goto(s["label"])
        elif k == "break":
            raise Brk()
        elif k == "continue":
            raise Cont()
        elif k == "switch":
            self.acts.append(self.num(self.ev(s["c"])))
            if len(self.acts) > 1000:
                raise Stuck("the automaton's loop runs too many actions in state %d" % self.state)
        elif k == "null":
            pass
        else:
            raise AnalysisBroken("%s in the automaton's loop" % k)

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        if isinstance(v, int):
            return v != 0
        raise AnalysisBroken("unknown condition in the automaton's loop")

    def num(self, v):
        if isinstance(v, int):
            return v
        raise AnalysisBroken("unknown value in the automaton's loop")

    def place(self, e):
        k = e["k"]
        if k in ("cast", "icast", "paren"):
            return self.place(e["e"])
        if k == "var":
            return e["id"]
        if k == "member" and e["base"]["k"] in ("this", "icast"):
            return ("f", e["f"])
        raise AnalysisBroken("assignment to %s in the automaton's loop" % k)

    def load(self, p):
        if isinstance(p, tuple) and p[0] == "ptr":
            t = self.tables[p[1]]
            if not 0 <= p[2] < len(t):
                raise Stuck("the automaton's loop reads outside of a table in state %d" % self.state)
            return t[p[2]]
        if p == ("p", 0) and self.char is not None:
            return self.char
        raise Stuck("the automaton's loop reads outside of the input in state %d" % self.state)

    def at_end(self, p):
        if self.char is None:
            return True
        if p == ("p", 0):
            return False
        raise Done()

    def ev(self, e):
        k = e["k"]
        if k in ("int", "bool"):
            return int(e["v"])
        if k in ("cast", "icast", "paren"):
            v = self.ev(e["e"])
            if e.get("ck") == "IntegralCast" and isinstance(v, int):
                t = e.get("t", "")
                if "unsigned" in t and "char" not in t and v < 0:
                    v &= (1 << (64 if "long" in t else 32)) - 1
                elif t in ("unsigned char",):
                    v &= 255
            return v
        if k == "var":
            if e["id"] in self.mem:
                return self.mem[e["id"]]
            return self.table(e)
        if k == "member":
            return self.mem[self.place(e)]
        if k == "assign":
            p = self.place(e["l_"])
            v = self.ev(e["r_"])
            op = e.get("op", "=")
            if op not in ("=", ""):
                v = self.arith(op[:-1], self.ev(e["l_"]), v)
            self.mem[p] = v
            return v
        if k == "unop":
            op = e["op"]
            if op == "*":
                return self.load(self.ev(e["e"]))
            if op == "!":
                return int(not self.truth(self.ev(e["e"])))
            if op[:2] in ("++", "--"):
                p = self.place(e["e"])
                old = self.mem[p]
                new = self.arith("+" if "+" in op else "-", old, 1)
                self.mem[p] = new
                return old if op.endswith("post") else new
            v = self.num(self.ev(e["e"]))
            return {"-": -v, "+": v, "~": ~v}[op]
        if k == "binop":
            op = e["op"]
            if op == "&&":
                return int(self.truth(self.ev(e["l_"])) and self.truth(self.ev(e["r_"])))
            if op == "||":
                return int(self.truth(self.ev(e["l_"])) or self.truth(self.ev(e["r_"])))
            if op == ",":
                self.ev(e["l_"])
                return self.ev(e["r_"])
            return self.arith(op, self.ev(e["l_"]), self.ev(e["r_"]))
        if k == "cond":
            return self.ev(e["a"]) if self.truth(self.ev(e["c"])) else self.ev(e["b"])
        if k == "index":
            return self.load(self.arith("+", self.ev(e.get("a") or e.get("base")), self.ev(e.get("b") or e.get("idx"))))
        if "cv" in e and isinstance(e["cv"], int):
            return e["cv"]
        raise AnalysisBroken("%s in the automaton's loop" % k)

    def arith(self, op, a, b):
        ends = [x for x in (a, b) if x == ("end",)]
        if ends and op in ("==", "!="):
            o = b if a == ("end",) else a
            if o == ("end",):
                return int(op == "==")
            return int(self.at_end(o) == (op == "=="))
        if isinstance(a, int) and isinstance(b, int):
            if op in ("/", "%") and b == 0:
                raise AnalysisBroken("division by zero in the automaton's loop")
            return int({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "|": lambda: a | b, "&": lambda: a & b,
                        "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b, "==": lambda: a == b, "!=": lambda: a != b,
                        "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b,
                        "/": lambda: int(a / b), "%": lambda: a - b * int(a / b)}[op]())
        if isinstance(a, tuple) and isinstance(b, int) and op in ("+", "-"):
            d = b if op == "+" else -b
            return (a[0], a[1] + d) if a[0] == "p" else ("ptr", a[1], a[2] + d)
        if isinstance(b, tuple) and isinstance(a, int) and op == "+":
            return self.arith(op, b, a)
        if isinstance(a, tuple) and isinstance(b, tuple) and a[:-1] == b[:-1]:
            if op == "-":
                return a[-1] - b[-1]
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return self.arith(op, a[-1], b[-1])
        raise AnalysisBroken("unknown operation %s in the automaton's loop" % op)
