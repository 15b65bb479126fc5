"""A small abstract evaluator for the code of the parser's actions.

It executes statements on an abstract store.  Texts are known by the place of the input they were taken
from (see tokens.py), objects by their type and constructor arguments; everything else is an opaque term.
Branches on unknown values are decided by an oracle, so that all of them can be explored."""
import re

from .facts import AnalysisBroken

NULL = ("null",)
MOVED = ("moved",)


class Thrown(Exception):
    def __init__(self, typ, where):
        self.typ, self.where = typ, where


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class UB(Exception):
    def __init__(self, what, where):
        self.what, self.where = what, where


class L:
    """an lvalue"""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return "L%r" % (self.k,)


def skip(e):
    while isinstance(e, dict) and e.get("k") in ("icast", "cast", "paren", "cleanups", "bind", "mat") and e.get("e") is not None:
        e = e["e"]
    return e


class Eval:
    max_depth = 60

    def __init__(self, P, E, store, choices, anchors=None):
        self.P, self.E, self.st = P, E, store
        self.choices, self.pos = choices, 0
        self.events = []
        self.anchors = anchors or {}
        self.depth = 0
        self.line = None
        self.this = ("this",)
        self.asked = []
        self.tmp = 0
        self.refs = {}
        self.steps = 0

    # ------------------------------------------------------------ oracle
    def choose(self, n, why):
        """one of n alternatives"""
        if self.pos < len(self.choices):
            c = self.choices[self.pos]
        else:
            c = 0
            self.choices.append(0)
        self.pos += 1
        self.asked.append((n, why))
        return c

    # ------------------------------------------------------------ store
    def read(self, k):
        if k in self.st:
            return self.st[k]
        # parts of tuples
        if len(k) > 1 and isinstance(k[-1], str):
            b = k[:-1]
            if b in self.st:
                v = self.st[b]
                if v[0] == "pair" and k[-1] in ("first", "second"):
                    return v[1 if k[-1] == "first" else 2]
                if k[-1] == "*":
                    if v == NULL:
                        raise UB("null or empty value is used", self.line)
                    return v
        return ("init",) + k

    def write(self, k, v):
        if len(k) > 1:
            b = k[:-1]
            if k[-1] in ("first", "second"):
                v0 = self.read(b)
                if v0[0] != "pair":
                    v0 = ("pair", ("init",) + b + ("first",), ("init",) + b + ("second",))
                self.st[b] = ("pair", v, v0[2]) if k[-1] == "first" else ("pair", v0[1], v)
                return
            if k[-1] == "*":
                self.st[b] = v
                return
        for x in [x for x in self.st if len(x) > len(k) and x[:len(k)] == k]:
            del self.st[x]
        self.st[k] = v

    def rv(self, v):
        return self.read(v.k) if isinstance(v, L) else v

    # ------------------------------------------------------------ statements
    def run(self, s):
        if s is None:
            return
        k = s.get("k")
        self.steps += 1
        if self.steps > 20000:
            raise AnalysisBroken("action code does not end")
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise AnalysisBroken("statement %s in an action" % k)
        m(s)

    def s_block(self, s):
        for x in s["b"]:
            self.run(x)

    def s_null(self, s):
        pass

    def s_case(self, s):
        self.run(s.get("s"))

    def s_break(self, s):
        raise Break()

    def s_expr(self, s):
        self.ev(s["e"])

    def s_decl(self, s):
        for v in s.get("vars") or []:
            k = ("var", v["id"])
            init = v.get("init")
            t = v.get("t", "")
            if v.get("ref") or t.rstrip().endswith("&"):
                x = self.ev(init)
                self.refs[v["id"]] = x if isinstance(x, L) else self.temp(x)
                continue
            self.refs.pop(v["id"], None)
            if init is None:
                self.write(k, ("init",) + k)
            else:
                self.store_to(k, self.ev(init))

    def store_to(self, k, v):
        """initialises an object; parts of structures are copied one by one"""
        if isinstance(v, L) and v.k not in self.st:
            parts = [(y[len(v.k):], z) for y, z in self.st.items() if len(y) > len(v.k) and y[:len(v.k)] == v.k]
            if parts:
                for y in [y for y in self.st if y[:len(k)] == k]:
                    del self.st[y]
                for y, z in parts:
                    self.st[k + y] = z
                return
        self.write(k, self.rv(v))

    def temp(self, v):
        self.tmp += 1
        k = ("tmp", self.tmp)
        self.st[k] = v
        return L(k)

    def s_if(self, s):
        if s.get("init"):
            self.run(s["init"])
        if s.get("var"):
            v = s["var"]
            self.s_decl({"vars": [v if "id" in v else v["vars"][0]]})
        if self.cond(s["c"]):
            self.run(s.get("a"))
        else:
            self.run(s.get("b"))

    def s_return(self, s):
        raise Return(self.ev(s["e"]) if s.get("e") is not None else None)

    def s_try(self, s):
        try:
            self.run(s["b"])
        except Thrown as t:
            for h in s["handlers"]:
                if self.E.catches(h, t.typ):
                    v = h.get("var")
                    if v:
                        self.refs[v["id"]] = self.temp(("exc", t.typ))
                    old, self.cur = getattr(self, "cur", None), t
                    self.run(h["b"])
                    self.cur = old
                    return
            raise

    def s_while(self, s):
        n = 0
        while self.cond(s["c"]):
            n += 1
            if n > 8:
                raise AnalysisBroken("loop in an action")
            try:
                self.run(s["b"])
            except Break:
                break

    def s_for(self, s):
        if s.get("init"):
            self.run(s["init"])
        n = 0
        while s.get("c") is None or self.cond(s["c"]):
            n += 1
            if n > 8:
                raise AnalysisBroken("loop in an action")
            try:
                self.run(s["b"])
            except Break:
                break
            if s.get("inc") is not None:
                self.ev(s["inc"])

    # ------------------------------------------------------------ conditions
    def truth(self, v, why="condition"):
        v = self.rv(v)
        if isinstance(v, (int, bool)):
            return bool(v)
        if v == NULL:
            return False
        if v[0] in ("obj", "global", "regex", "chain", "lambda", "fnptr"):
            return True
        return bool(self.choose(2, (why, v, self.line)))

    def cond(self, e):
        return self.truth(self.ev(e))

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        if e is None:
            return None
        self.line = e.get("l", self.line)
        if "cv" in e and e.get("k") not in ("assign", "call", "construct") and e["cv"] is not None:
            if isinstance(e["cv"], (int, bool)):
                return int(e["cv"])
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise AnalysisBroken("expression %s in an action" % e["k"])
        return m(e)

    def e_int(self, e):
        return int(e["v"])

    def e_str(self, e):
        return ("str", e["v"])

    def e_null(self, e):
        return NULL

    def e_float(self, e):
        return ("float", e.get("v"))

    def e_sizeof(self, e):
        return ("sizeof",)

    def e_defarg(self, e):
        return self.ev(e.get("e"))

    def e_stdinit(self, e):
        x = e.get("e")
        return self.ev(x) if x else ("stdinit",)

    def e_this(self, e):
        return ("addr", self.this)

    def e_var(self, e):
        i = e.get("id")
        if i in self.refs:
            return self.refs[i]
        if e.get("vk") in ("local", "param") or ("var", i) in self.st:
            return L(("var", i))
        g = self.P.globals.get(i)
        if g is not None and (g.get("const") or g.get("constexpr")) and g.get("init") and re.match(r"const (int|unsigned|bool|long|.*flag_type)", g.get("t", "")):
            return self.ev(g["init"])
        return ("global", e.get("qn") or e.get("name"))

    def e_fn(self, e):
        return ("global", self.P.sq(e["fn"]) if e.get("fn") in self.P.fn else e.get("qn"))

    def e_paren(self, e):
        return self.ev(e["e"])

    def e_icast(self, e):
        v = self.ev(e["e"])
        ck = e.get("ck", "")
        if ck == "LValueToRValue":
            return self.rv(v)
        if ck in ("NullToPointer", "NullToMemberPointer"):
            return NULL
        if ck in ("PointerToBoolean", "IntegralToBoolean", "MemberPointerToBoolean"):
            return int(self.truth(v))
        return v

    e_cast = e_icast

    def e_member(self, e):
        b = self.ev(e["base"])
        if e.get("arrow"):
            b = self.rv(b)
            k = self.target(b)
        else:
            k = b.k if isinstance(b, L) else self.temp(b).k
        return L(k + (e["f"],))

    def target(self, p):
        """what a pointer value points to"""
        if isinstance(p, tuple) and p and p[0] == "addr":
            return p[1]
        if p == NULL:
            raise UB("null pointer is dereferenced", self.line)
        return self.temp(p).k

    def e_unop(self, e):
        op = e["op"]
        if op == "*":
            v = self.rv(self.ev(e["e"]))
            if v == NULL:
                raise UB("null pointer is dereferenced", self.line)
            if isinstance(v, tuple) and v[0] == "addr":
                return L(v[1])
            return ("deref", v)
        if op == "&":
            v = self.ev(e["e"])
            return ("addr", v.k) if isinstance(v, L) else ("addrof", v)
        if op == "!":
            return int(not self.truth(self.ev(e["e"])))
        v = self.ev(e["e"])
        x = self.rv(v)
        if op[:2] in ("++", "--"):
            y = x + (1 if "+" in op else -1) if isinstance(x, int) else ("op", op[:2], x)
            if isinstance(v, L):
                self.write(v.k, y)
            return x if op.endswith("post") else v
        if isinstance(x, int):
            return {"-": -x, "+": x, "~": ~x}.get(op, x)
        return ("op", op, x)

    def e_binop(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.truth(self.ev(e["l_"]))
            if (op == "&&") != a:
                return int(a)
            return int(self.truth(self.ev(e["r_"])))
        if op == ",":
            self.ev(e["l_"])
            return self.ev(e["r_"])
        a, b = self.rv(self.ev(e["l_"])), self.rv(self.ev(e["r_"]))
        return self.arith(op, a, b)

    def arith(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            try:
                return int({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "|": lambda: a | b, "&": lambda: a & b,
                            "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b, "==": lambda: a == b, "!=": lambda: a != b,
                            "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b,
                            "/": lambda: int(a / b), "%": lambda: a - b * int(a / b)}[op]())
            except (KeyError, ZeroDivisionError):
                pass
        if op == "-" and isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "pos" and b[0] == "pos":
            return ("dist", b, a)
        if op in ("==", "!=") and (a == NULL or b == NULL):
            o = a if b == NULL else b
            if o == NULL or isinstance(o, tuple) and o[0] in ("obj", "global", "regex", "pos", "addr", "chain", "fnptr", "lambda"):
                return int((o == NULL) == (op == "=="))
        return ("op", op, a, b)

    def e_assign(self, e):
        op = e.get("op", "=")
        l = self.ev(e["l_"])
        r = self.rv(self.ev(e["r_"]))
        if op not in ("=", ""):
            r = self.arith(op[:-1], self.rv(l), r)
        if isinstance(l, L):
            self.write(l.k, r)
        return l

    def e_cond(self, e):
        return self.ev(e["a"]) if self.cond(e["c"]) else self.ev(e["b"])

    def e_lambda(self, e):
        for c in e.get("caps") or e.get("captures") or []:
            if isinstance(c, dict) and c.get("byref") is False and not c.get("this") and c.get("var"):
                pass
        return ("lambda", e.get("fn"))

    def e_index(self, e):
        a, b = self.ev(e["a"] if "a" in e else e["base"]), self.rv(self.ev(e["b"] if "b" in e else e["idx"]))
        return ("op", "[]", self.rv(a), b)

    def e_init(self, e):
        args = [self.rv(self.ev(a)) for a in e.get("args") or []]
        return args[0] if len(args) == 1 else ("init",) + tuple(args) if args else 0

    def e_throw(self, e):
        if e.get("e") is None:
            raise getattr(self, "cur", None) or Thrown("?", self.line)
        self.ev(e["e"])
        raise Thrown(e.get("tt"), e.get("l"))

    def e_new(self, e):
        if e.get("init"):
            return self.ev(e["init"])
        return ("obj", e.get("at"), ())

    def e_elvis(self, e):
        v = self.ev(e.get("c") or e["a"])
        return v if self.truth(v) else self.ev(e["b"])

    def e_callptr(self, e):
        return ("ap", "callptr")

    # ------------------------------------------------------------ objects
    def is_value_class(self, rec):
        """repo classes that are created on the heap and handed to rules"""
        r = self.P.records.get(rec)
        return bool(r and r.get("inrepo") and r.get("polymorphic"))

    def e_construct(self, e):
        rec = e.get("rec") or e.get("t", "")
        base = re.sub(r"<.*", "", rec)
        f = self.P.fn.get(e.get("fn"))
        args = e.get("args") or []
        if self.is_value_class(rec):
            vals = self.flat([self.move_arg(a, f, i) for i, a in enumerate(args)])
            if e.get("copy") or e.get("move"):
                return vals[0]
            return ("obj", rec, tuple(vals))
        if base == "std::unique_ptr" or base == "std::function" or base == "std::shared_ptr":
            if not args:
                return NULL
            return self.move_arg(args[0], f, 0)
        if base == "std::optional":
            if not args:
                return NULL
            v = self.move_arg(args[0], f, 0)
            return NULL if v == ("global", "std::nullopt") else v
        if base == "std::pair":
            if len(args) == 2:
                return ("pair", self.move_arg(args[0], f, 0), self.move_arg(args[1], f, 1))
            if len(args) == 1:
                return self.move_arg(args[0], f, 0)
            return ("pair", 0, 0)
        if base in ("std::basic_string", "std::string", "std::__cxx11::basic_string", "std::basic_string_view", "std::string_view"):
            return self.string([self.move_arg(a, f, i) for i, a in enumerate(args) if skip(a).get("k") != "defarg"])
        if base == "boost::basic_regex":
            vals = [self.move_arg(a, f, i) for i, a in enumerate(args)]
            if not vals:
                return ("regex", ("str", ""), 0)
            if e.get("copy") or e.get("move") or (isinstance(vals[0], tuple) and vals[0][0] in ("regex", "deref")):
                return vals[0]
            return self.regex(vals)
        if f is not None and f.get("inrepo") and f.get("has_body"):
            return self.construct_inline(e, f)
        return ("ap", rec) + tuple(self.rv(self.ev(a)) for a in args)

    def regex(self, vals):
        if self.choose(2, ("regex", vals[0], self.line)):
            raise Thrown("boost::regex_error", self.line)
        flags = vals[1] if len(vals) > 1 else 0
        if len(vals) > 2:
            flags = vals[2]
        return ("regex", vals[0], flags)

    def construct_inline(self, e, f):
        k = self.temp(("self",)).k
        del self.st[k]
        self.call_ctor(f, k, e.get("args") or [])
        # a struct value: keep it under its key
        return L(k)

    def call_ctor(self, f, k, args):
        saved = (self.this,)
        bind = self.bind(f, args)
        self.this = k
        self.depth += 1
        if self.depth > self.max_depth:
            raise AnalysisBroken("recursion in action code")
        old = self.enter(bind)
        try:
            for i in f.get("inits") or []:
                if i.get("field"):
                    self.write(k + (i["field"],), self.rv(self.ev(i["e"])))
                elif i.get("e"):
                    self.ev(i["e"])
            try:
                self.run(f.get("body"))
            except Return:
                pass
        finally:
            self.depth -= 1
            self.leave(old)
            self.this = saved[0]

    def flat(self, vals):
        out = []
        for v in vals:
            v = self.rv(v)
            if isinstance(v, tuple) and v and v[0] == "pair":
                out += self.flat(v[1:])
            else:
                out.append(v)
        return out

    def string(self, vals):
        if not vals:
            return ("str", "")
        a = vals[0]
        if len(vals) == 1:
            return a
        b = vals[1]
        if isinstance(a, tuple) and a[0] == "pos":
            if isinstance(b, tuple) and b[0] == "dist" and b[1] == a:
                return self.span(a, b[2])
            if isinstance(b, tuple) and b[0] == "pos":
                return self.span(a, b)
        return ("ap", "string") + tuple(vals)

    def span(self, a, b):
        return ("tok", frozenset(x for x in a[1] if x in b[2]))

    def move_arg(self, a, f, i):
        """value of an argument; an object moved from is emptied"""
        v = self.ev(a)
        if isinstance(v, L):
            x = self.read(v.k)
            t = f["params"][i]["t"] if f is not None and i < len(f.get("params") or []) else ""
            if t.endswith("&&") and x != NULL:
                inner = skip(a)
                if isinstance(x, tuple) and x[0] in ("obj", "chain"):
                    self.write(v.k, NULL)
                elif isinstance(x, tuple) and x[0] in ("tok", "str") and inner.get("k") == "call":
                    self.write(v.k, MOVED)
            if x == ("init",) + v.k:
                # a struct
                sub = {y[len(v.k):]: z for y, z in self.st.items() if len(y) > len(v.k) and y[:len(v.k)] == v.k}
                if sub:
                    return v
            return x
        return v

    # ------------------------------------------------------------ calls
    def bind(self, f, args):
        out = []
        for i, p in enumerate(f.get("params") or []):
            if i < len(args):
                v = args[i] if isinstance(args[i], (L, tuple, int)) else self.ev(args[i])
            else:
                v = ("init", p["id"])
            if p["t"].rstrip().endswith("&"):
                out.append((p["id"], "ref", v if isinstance(v, L) else self.temp(self.rv(v))))
            else:
                x = self.move_value(v, args[i] if i < len(args) else None)
                out.append((p["id"], "val", x))
        return out

    def move_value(self, v, a):
        return self.rv(v)

    def enter(self, bind):
        old = []
        for i, how, v in bind:
            old.append((i, self.refs.get(i), self.st.get(("var", i))))
            if how == "ref":
                self.refs[i] = v
            else:
                self.refs.pop(i, None)
                self.write(("var", i), v)
        return old

    def leave(self, old):
        for i, r, v in old:
            if r is None:
                self.refs.pop(i, None)
            else:
                self.refs[i] = r
            if v is None:
                self.st.pop(("var", i), None)
            else:
                self.st[("var", i)] = v

    def inline(self, f, this, args):
        if self.depth > self.max_depth:
            raise AnalysisBroken("recursion in action code")
        bind = self.bind(f, args)
        saved = self.this
        if this is not None:
            self.this = this
        self.depth += 1
        old = self.enter(bind)
        try:
            self.run(f["body"])
            ret = None
        except Return as r:
            ret = r.v
            t = f.get("ret", "")
            if isinstance(ret, L) and not t.rstrip().endswith("&"):
                x = self.read(ret.k)
                ret = ret if x == ("init",) + ret.k else x
        finally:
            self.depth -= 1
            self.leave(old)
            self.this = saved
        return ret

    def e_call(self, e):
        f = self.P.fn.get(e.get("fn"))
        if f is None:
            return ("ap", e.get("qn", "?"))
        name = self.P.sq(f)
        line = e.get("l")
        a = self.anchors.get(name)
        if a is not None:
            r = a(self, e, f)
            if r is not NotImplemented:
                return r
        obj = None
        if e.get("obj") is not None:
            o = self.ev(e["obj"])
            if e.get("arrow"):
                o = L(self.target(self.rv(o)))
            obj = o
        lam = f.get("lambda") or "(anonymous class)::operator()" in f["qn"]
        if (f.get("inrepo") or name in ("std::make_unique", "std::make_optional", "std::make_pair")) and f.get("body") is not None:
            if f.get("noreturn"):
                for t in sorted(self.E.esc.get(f["id"], {})) or ["?"]:
                    raise Thrown(t, line)
            if f.get("virtual") and e.get("virtual"):
                raise AnalysisBroken("virtual call in an action")
            k = None
            if obj is not None and not lam:
                k = obj.k if isinstance(obj, L) else self.temp(obj).k
            return self.inline(f, k, e.get("args") or [])
        if f.get("noreturn") and f.get("inrepo"):
            raise Thrown("?", line)
        return self.library(name, e, f, obj)

    def library(self, name, e, f, obj):
        args = e.get("args") or []
        last = name.rsplit("::", 1)[-1]
        if name in ("std::move", "std::forward", "std::as_const", "std::addressof"):
            v = self.ev(args[0])
            if name == "std::addressof":
                return ("addr", v.k) if isinstance(v, L) else v
            return v
        if name == "std::make_pair":
            return ("pair",) + tuple(self.rv(self.move_arg(a, f, i)) for i, a in enumerate(args))
        if name == "std::exchange":
            v = self.ev(args[0])
            x, y = self.rv(v), self.rv(self.ev(args[1]))
            self.write(v.k, y)
            return x
        if name == "std::distance":
            x, y = self.rv(self.ev(args[0])), self.rv(self.ev(args[1]))
            return self.arith("-", y, x)
        if re.match(r"^std::(sto(i|l|ll|ul|ull))$", name):
            x = self.rv(self.ev(args[0]))
            c = self.choose(2, ("number", x, e.get("l")))
            self.events.append(("number", x, e.get("l")))
            if c:
                raise Thrown("std::out_of_range", e.get("l"))
            return ("int", x)
        cls = name.rsplit("::", 1)[0]
        if cls == "std::vector" and obj is not None and last in ("back", "front") and isinstance(obj, L):
            return L(obj.k + (last,))
        if cls in ("std::unique_ptr", "std::__uniq_ptr_impl", "std::shared_ptr"):
            if last in ("operator->", "get"):
                if isinstance(obj, L):
                    if self.rv(obj) == NULL:
                        if last == "get":
                            return NULL
                        raise UB("null smart pointer is dereferenced", self.line)
                    return ("addr", obj.k + ("*",))
                return obj
            if last == "operator*":
                if self.rv(obj) == NULL:
                    raise UB("null smart pointer is dereferenced", self.line)
                return L(obj.k + ("*",)) if isinstance(obj, L) else obj
            if last == "operator bool":
                return int(self.truth(obj))
            if last in ("operator=", "reset"):
                v = self.move_arg(args[0], f, 0) if args and skip(args[0]).get("k") != "defarg" else NULL
                self.write(obj.k, v)
                return obj
            if last == "release":
                v = self.rv(obj)
                self.write(obj.k, NULL)
                return v
            if last == "swap":
                return self.swap(obj, self.ev(args[0]))
        if cls == "std::function":
            if last == "operator=":
                self.write(obj.k, self.move_arg(args[0], f, 0))
                return obj
            if last == "operator bool":
                return int(self.truth(obj))
        if cls == "std::optional":
            if last in ("operator*", "value", "operator->"):
                v = self.rv(obj)
                if v == NULL:
                    if last == "value":
                        raise Thrown("std::bad_optional_access", self.line)
                    raise UB("empty optional is dereferenced", self.line)
                return v if last != "operator->" else ("addr", obj.k)
            if last in ("has_value", "operator bool"):
                return int(self.truth(obj))
            if last in ("operator=",):
                v = self.move_arg(args[0], f, 0)
                self.write(obj.k, NULL if v == ("global", "std::nullopt") else v)
                return obj
            if last == "reset":
                self.write(obj.k, NULL)
                return None
            if last == "emplace":
                vals = [self.rv(self.move_arg(a, f, i)) for i, a in enumerate(args)]
                if "basic_regex" in f["qn"]:
                    v = vals[0] if len(vals) == 1 and isinstance(vals[0], tuple) and vals[0][0] == "regex" else self.regex(vals)
                else:
                    v = vals[0] if len(vals) == 1 else ("ap", "emplace") + tuple(vals)
                self.write(obj.k, v)
                return obj
        if cls == "boost::basic_regex":
            if last in ("assign", "operator="):
                vals = [self.rv(self.move_arg(a, f, i)) for i, a in enumerate(args)]
                v = vals[0] if isinstance(vals[0], tuple) and vals[0][0] in ("regex", "deref") else self.regex(vals)
                self.write(obj.k, v)
                return obj
        if cls == "std::pair" and last == "operator=":
            self.write(obj.k, self.rv(self.move_arg(args[0], f, 0)))
            return obj
        if cls in ("std::basic_string", "std::__cxx11::basic_string") or cls == "std::basic_string_view":
            if last in ("operator=", "assign"):
                v = self.string([self.rv(self.move_arg(a, f, i)) for i, a in enumerate(args) if skip(a).get("k") != "defarg"])
                self.write(obj.k, v)
                return obj
            if last == "clear":
                self.write(obj.k, ("str", ""))
                return None
            if last == "swap":
                return self.swap(obj, self.ev(args[0]))
            v = self.rv(obj)
            if isinstance(v, tuple) and v[0] == "str":
                if last == "empty":
                    return int(not v[1])
                if last in ("size", "length"):
                    return len(v[1])
            if last in ("data", "c_str", "begin", "cbegin") or last == "operator basic_string_view":
                return v
            if f.get("const"):
                return ("ap", last, v) + tuple(self.rv(self.ev(a)) for a in args)
        if name == "std::swap":
            return self.swap(self.ev(args[0]), self.ev(args[1]))
        if last == "operator==" or last == "operator!=":
            vals = ([self.rv(obj)] if obj is not None else []) + [self.rv(self.ev(a)) for a in args]
            if len(vals) == 2:
                return self.arith(last[8:], vals[0], vals[1])
        # unknown library function: its result is opaque; what it may write is unknown afterwards
        vals = []
        for i, a in enumerate(args):
            v = self.ev(a)
            t = f["params"][i]["t"] if i < len(f.get("params") or []) else ""
            vals.append(self.rv(v))
            if isinstance(v, L) and t.endswith("&") and "const" not in t:
                self.write(v.k, ("ap", name, "out"))
        o = self.rv(obj) if obj is not None else None
        if obj is not None and isinstance(obj, L) and not f.get("const") and not f.get("static"):
            self.write(obj.k, ("ap", name, o) + tuple(vals))
        return ("ap", name) + ((o,) if obj is not None else ()) + tuple(vals)

    def swap(self, a, b):
        if isinstance(a, L) and isinstance(b, L):
            x, y = self.read(a.k), self.read(b.k)
            self.write(a.k, y)
            self.write(b.k, x)
        return None
