"""Shape analysis of the parser's stack of rule stacks.

The stack is a list of levels of which only the upper part is known; every well-formed upper part the code can
tell apart is tried.  Levels come in pairs: a result level with at most one rule and a work level.  All but the
topmost work level hold at least one rule."""
from . import absx
from .absx import L, MOVED, NULL, Thrown, UB
from .facts import AnalysisBroken

STACKS = ("this", "stacks_")


class Vec:
    """a vector whose last elements are known; rest: 0 nothing below, '*' any number, '?' at most one"""

    def __init__(self, items, rest):
        self.items, self.rest = items, rest


class Stack:
    """the whole stack; slots name element positions in memory, so that dead references are noticed"""

    def __init__(self):
        self.n = 0
        self.slots = {}       # slot -> ('level', Vec) | ('rule', id)
        self.vec = Vec([], 0)
        self.rules = {}
        self.log = []

    def slot(self, v):
        self.n += 1
        self.slots[self.n] = v
        return self.n

    def level(self, rest):
        return self.slot(("level", Vec([], rest)))

    def rule(self, name):
        self.rules[name] = {}
        return name

    # ------------------------------------------------------------ sizes
    def at_least(self, v, n):
        if len(v.items) >= n:
            return True
        if v.rest == 0:
            return False
        raise AnalysisBroken("the code looks deeper into the rule stacks than expected")

    def exact(self, v):
        if v.rest != 0:
            raise AnalysisBroken("the code looks deeper into the rule stacks than expected")
        return len(v.items)

    def get(self, slot, what):
        if slot not in self.slots:
            raise UB("a reference into the rule stacks is used after the element is gone", what)
        return self.slots[slot]

    # ------------------------------------------------------------ operations
    def back(self, v, where):
        if not self.at_least(v, 1):
            raise UB("the last element of an empty rule stack is used", where)
        return v.items[-1]

    def pop(self, v, where):
        if not self.at_least(v, 1):
            raise UB("an element of an empty rule stack is removed", where)
        s = v.items.pop()
        self.kill(s)

    def kill(self, s):
        x = self.slots.pop(s, None)
        if x and x[0] == "level":
            for y in x[1].items:
                self.kill(y)

    def push(self, v, x):
        # a growing vector may move its elements
        new = []
        for s in v.items:
            new.append(self.slot(self.slots.pop(s)))
        v.items[:] = new
        v.items.append(self.slot(x))
        return v.items[-1]

    def clear(self, v):
        for s in v.items:
            self.kill(s)
        v.items[:] = []
        v.rest = 0

    def dump(self):
        out = []
        for s in self.vec.items:
            k, v = self.slots[s]
            out.append(tuple(self.slots[x][1] for x in v.items) + ((v.rest,) if v.rest != 0 else ()))
        return tuple(out)

    def describe(self):
        """for reports, from the bottom"""
        out = []
        for s in self.vec.items:
            v = self.slots[s][1]
            out.append("%d%s" % (len(v.items), "+" if v.rest else ""))
        return ("..." if self.vec.rest else "") + "[" + ", ".join(out) + "]"


def stacks():
    """all well-formed stacks, as far as the code may look"""
    import itertools
    below = [((), 0)]
    for r1, w1 in itertools.product((0, 1), ((1, 0), (2, "*"))):
        below.append((((r1, w1),), 0))
        below.append((((1, (1, "*")), (r1, w1)), "*"))
    for (pairs, rest), r, w in itertools.product(below, (0, 1), ((0, 0), (1, 0), (2, 0), (3, "*"))):
        S = Stack()
        S.vec.rest = rest
        for res, (n, more) in pairs + ((r, w),):
            for size, unknown in ((res, 0), (n, more)):
                l = Vec([S.slot(("rule", S.rule("r%d" % (len(S.rules) + 1)))) for _ in range(size)], unknown)
                S.vec.items.append(S.slot(("level", l)))
        yield S


class StackEval(absx.Eval):
    """evaluates the parser's own functions over a Stack"""

    def __init__(self, P, E, choices, stack, consts):
        super().__init__(P, E, {}, choices, {})
        self.stack = stack
        self.K = consts
        for n in ("append_child", "append_next", "append_nested"):
            self.anchors["hext::Rule::" + n] = self.attach(n)
        self.anchors["hext::Rule::set_tag"] = self.setter("tag")
        self.anchors["hext::Rule::set_tagname"] = self.setter("name")
        self.anchors["hext::Rule::get_tag"] = self.getter("tag")
        self.anchors["hext::Rule::get_tagname"] = self.getter("name")

    # ------------------------------------------------------------ rules
    def rule_of(self, o, e):
        if isinstance(o, L):
            v = self.read(o.k)
        else:
            v = o
        if v == MOVED:
            raise UB("a rule is used after it was moved", e.get("l"))
        if not (isinstance(v, tuple) and v[0] == "rule"):
            raise AnalysisBroken("a rule that is not on the stacks")
        return v[1]

    def obj_of(self, e):
        o = self.ev(e["obj"])
        return L(self.target(self.rv(o))) if e.get("arrow") else o

    def attach(self, n):
        def a(ev, e, f):
            if f.get("targs"):
                return NotImplemented
            o = self.obj_of(e)
            r = self.rule_of(o, e)
            x = self.move_arg(e["args"][0], f, 0)
            x = self.rv(x)
            if not (isinstance(x, tuple) and x[0] == "rule"):
                raise AnalysisBroken("a rule that is not on the stacks")
            self.stack.log.append((n, r, x[1]))
            return o
        return a

    def setter(self, field):
        def a(ev, e, f):
            o = self.obj_of(e)
            r = self.rule_of(o, e)
            self.stack.rules[r][field] = self.rv(self.ev(e["args"][0]))
            return o
        return a

    def getter(self, field):
        def a(ev, e, f):
            r = self.rule_of(self.obj_of(e), e)
            return self.stack.rules[r].get(field, ("init", "rule", r, field))
        return a

    def e_construct(self, e):
        if e.get("rec") == "hext::Rule":
            args = e.get("args") or []
            if e.get("copy") or e.get("move"):
                v = self.ev(args[0])
                x = self.rv(v)
                if x == MOVED:
                    raise UB("a rule is used after it was moved", e.get("l"))
                if e.get("move") and isinstance(v, L):
                    self.write(v.k, MOVED)
                return x
            return ("rule", self.stack.rule("n%d" % (len(self.stack.rules) + 1)))
        if str(e.get("rec", "")).startswith("std::vector<") and not e.get("copy") and not e.get("move"):
            return ("newvec", self.elements(e.get("args") or []))
        return super().e_construct(e)

    def elements(self, args):
        out = ()
        for a in args:
            v = self.ev(a)
            if isinstance(v, tuple) and v and v[0] == "newvec":
                out += (v,)
            elif isinstance(v, int):
                out += (("newvec", ()),) * v
            elif isinstance(v, tuple) and v and v[0] == "list":
                out += v[1]
        return out

    def e_init(self, e):
        vals = [self.rv(self.ev(a)) for a in e.get("args") or []]
        if vals and all(isinstance(v, tuple) and v and v[0] == "newvec" for v in vals):
            return ("list", tuple(vals))
        return super().e_init(e)

    # ------------------------------------------------------------ memory
    def read(self, k):
        if k and k[0] == "slot":
            x = self.stack.get(k[1], self.line)
            return x if len(k) == 2 else ("init",) + k
        return super().read(k)

    def write(self, k, v):
        if k and k[0] == "slot":
            self.stack.get(k[1], self.line)
            self.stack.slots[k[1]] = v
            return
        super().write(k, v)

    def vector(self, obj):
        if isinstance(obj, L):
            if obj.k == STACKS:
                return self.stack.vec
            if obj.k[0] == "slot":
                x = self.stack.get(obj.k[1], self.line)
                if x[0] == "level":
                    return x[1]
        return None

    # ------------------------------------------------------------ numbers over sizes
    def arith(self, op, a, b):
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(x, tuple) and x and x[0] == "size" and isinstance(y, int):
                v, c = x[1], x[2]
                if op in ("+", "-") and not (flip and op == "-"):
                    return ("size", v, c + (y if op == "+" else -y))
                if op in ("==", "!=", "<", ">", "<=", ">="):
                    o = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op) if flip else op
                    n = y - c         # compares the number of elements with n
                    ge = lambda m: m <= 0 or self.stack.at_least(v[0], m)
                    if o == ">":
                        return int(ge(n + 1))
                    if o == ">=":
                        return int(ge(n))
                    if o == "<":
                        return int(not ge(n))
                    if o == "<=":
                        return int(not ge(n + 1))
                    eq = ge(n) and not ge(n + 1) and n >= 0
                    return int(eq == (o == "=="))
        if op in ("==", "!="):
            r = self.same(a, b)
            if r is not None:
                return int(r == (op == "=="))
        return super().arith(op, a, b)

    def same(self, a, b):
        """are two names, or two tags, the same"""
        name = lambda x: isinstance(x, tuple) and x and x[0] in ("name", "ktag", "str")
        for x, y in ((a, b), (b, a)):
            if name(x) and y == NULL:
                return False
            if isinstance(x, tuple) and x and x[0] == "ktag" and isinstance(y, int):
                return False
            # names other than * consist of letters, digits, - and _
            if isinstance(x, tuple) and x and x[0] == "char" and y == 42:
                return False
            if isinstance(x, tuple) and x and x[0] == "name" and isinstance(y, tuple) and y and y[0] == "str":
                return x[1] == "*" and y[1] == "*"
        if name(a) and name(b) and a[0] == b[0]:
            return a == b
        if a == NULL and b == NULL:
            return True
        return None

    def truth(self, v, why="condition"):
        v = self.rv(v)
        if isinstance(v, tuple) and v and v[0] == "size":
            return bool(self.arith("!=", v, 0))
        if isinstance(v, tuple) and v and v[0] in ("name", "rule"):
            return True
        return super().truth(v, why)

    def e_index(self, e):
        a, b = self.ev(e.get("a") or e["base"]), self.rv(self.ev(e.get("b") or e["idx"]))
        if isinstance(self.rv(a), tuple) and self.rv(a)[:1] == ("name",):
            return self.char(self.rv(a), b)
        return super().e_index(e)

    def char(self, n, i):
        if i == 0:
            return 42 if n[1] == "*" else ("char", n[1])
        if i == 1 and n[1] == "*":
            return 0
        return ("char", n[1], i)

    # ------------------------------------------------------------ library
    def library(self, name, e, f, obj):
        args = e.get("args") or []
        cls, last = name.rsplit("::", 1) if "::" in name else ("", name)
        where = e.get("l")
        S = self.stack
        if cls == "std::vector" and last == "operator=" and isinstance(obj, L) and obj.k == STACKS:
            v = self.rv(self.ev(args[0]))
            items = v[1] if isinstance(v, tuple) and v and v[0] in ("list", "newvec") else None
            if items is None:
                raise AnalysisBroken("the rule stacks are assigned something unknown")
            S.clear(S.vec)
            for _ in items:
                S.vec.items.append(S.level(0))
            return obj
        if cls == "std::vector" and last in ("resize", "assign") and isinstance(obj, L) and obj.k == STACKS:
            n = self.rv(self.ev(args[0]))
            rest = [self.rv(self.ev(a)) for a in args[1:] if a.get("k") != "defarg"]
            if not isinstance(n, int) or any(x != ("newvec", ()) for x in rest) or not 0 <= n < 6:
                raise AnalysisBroken("the rule stacks are assigned something unknown")
            if last == "assign":
                S.clear(S.vec)
            S.exact(S.vec)
            while len(S.vec.items) > n:
                S.pop(S.vec, where)
            while len(S.vec.items) < n:
                S.push(S.vec, ("level", Vec([], 0)))
            return None
        v = self.vector(obj) if cls == "std::vector" else None
        if v is not None:
            if last == "back":
                return L(("slot", S.back(v, where)))
            if last == "front":
                S.exact(v)
                if not v.items:
                    raise UB("the first element of an empty rule stack is used", where)
                return L(("slot", v.items[0]))
            if last == "pop_back":
                S.pop(v, where)
                return None
            if last == "empty":
                return int(not S.at_least(v, 1))
            if last == "size":
                return ("size", (v,), 0)
            if last == "clear":
                S.clear(v)
                return None
            if last in ("push_back", "emplace_back"):
                x = None
                if args:
                    x = self.rv(self.move_arg(args[0], f, 0))
                if v is S.vec:
                    if x is not None and not (isinstance(x, tuple) and x[0] == "newvec" and not x[1]):
                        raise AnalysisBroken("an unknown level is pushed")
                    return L(("slot", S.push(v, ("level", Vec([], 0)))))
                if x is None:
                    x = ("rule", S.rule("n%d" % (len(S.rules) + 1)))
                elif x == MOVED:
                    raise UB("a rule is used after it was moved", where)
                elif not (isinstance(x, tuple) and x[0] == "rule"):
                    raise AnalysisBroken("a rule that is not on the stacks")
                return L(("slot", S.push(v, x)))
            if last in ("at", "operator[]"):
                i = self.rv(self.ev(args[0]))
                if isinstance(i, tuple) and i and i[0] == "size" and i[1][0] is v:
                    d = -i[2]
                    if d > 0 and S.at_least(v, d):
                        return L(("slot", v.items[-d]))
                elif isinstance(i, int):
                    n = S.exact(v)
                    if 0 <= i < n:
                        return L(("slot", v.items[i]))
                else:
                    raise AnalysisBroken("unknown index into the rule stacks")
                if last == "at":
                    raise Thrown("std::out_of_range", where)
                raise UB("a rule stack is indexed outside of its bounds", where)
            if last in ("end", "cend", "rbegin", "crbegin"):
                return ("it", (v,), 0 if "r" not in last else 1, last.lstrip("c")[0] == "r")
            raise AnalysisBroken("%s on the rule stacks" % last)
        if obj is not None:
            it = self.rv(obj)
            if isinstance(it, tuple) and it and it[0] == "it":
                _, (w,), d, rev = it
                if last in ("operator-", "operator+") and args:
                    n = self.rv(self.ev(args[0]))
                    if isinstance(n, int):
                        s = n if (last == "operator-") != rev else -n
                        return ("it", (w,), d + s, rev)
                if last in ("operator*", "operator->"):
                    if d < 1 or not S.at_least(w, d):
                        raise UB("a rule stack is read outside of its bounds", where)
                    l = L(("slot", w.items[-d]))
                    return l if last == "operator*" else ("addr", l.k)
        if name in ("std::prev", "std::next") and args:
            it = self.rv(self.ev(args[0]))
            n = self.rv(self.ev(args[1])) if len(args) > 1 and args[1].get("k") != "defarg" else 1
            if isinstance(it, tuple) and it and it[0] == "it" and isinstance(n, int):
                s = n if (name == "std::prev") != it[3] else -n
                return ("it", it[1], it[2] + s, it[3])
        if name == "gumbo_tag_enum" or last == "gumbo_tag_enum":
            n = self.rv(self.ev(args[0]))
            if isinstance(n, tuple) and n[0] == "name":
                return ("ktag", n[1]) if n[1].startswith("K") else self.K["unknown"]
        if cls in ("std::basic_string", "std::__cxx11::basic_string", "std::basic_string_view") and obj is not None:
            n = self.rv(obj)
            if isinstance(n, tuple) and n and n[0] == "name":
                if last in ("size", "length"):
                    return 1 if n[1] == "*" else ("length", n[1])
                if last == "empty":
                    return 0
                if last in ("operator[]", "at", "front"):
                    return self.char(n, self.rv(self.ev(args[0])) if args else 0)
                if last in ("c_str", "data", "begin", "operator basic_string_view"):
                    return n
                if last == "compare" and len(args) == 1:
                    r = self.same(n, self.rv(self.ev(args[0])))
                    if r is not None:
                        return int(not r)
        return super().library(name, e, f, obj)

    def string(self, vals):
        if vals and isinstance(vals[0], tuple) and vals[0][:1] == ("name",):
            return vals[0]
        return super().string(vals)
