"""Which exceptions may leave a function: a fixpoint over the call graph and the try statements."""
import re

from . import facts
from .facts import rel

ANY = "?"                       # of unknown type
MEMORY = "std::bad_alloc"

BASES = {
    "std::logic_error": "std::exception", "std::runtime_error": "std::exception", "std::bad_alloc": "std::exception",
    "std::bad_cast": "std::exception", "std::bad_any_cast": "std::bad_cast", "std::bad_function_call": "std::exception",
    "std::bad_optional_access": "std::exception", "std::bad_variant_access": "std::exception", "std::bad_weak_ptr": "std::exception",
    "std::invalid_argument": "std::logic_error", "std::domain_error": "std::logic_error", "std::length_error": "std::logic_error",
    "std::out_of_range": "std::logic_error", "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error",
    "std::underflow_error": "std::runtime_error", "std::regex_error": "std::runtime_error", "std::system_error": "std::runtime_error",
    "std::ios_base::failure": "std::system_error", "std::filesystem::filesystem_error": "std::system_error",
    "std::bad_array_new_length": "std::bad_alloc", "std::bad_typeid": "std::exception",
    "boost::regex_error": "std::runtime_error", "boost::bad_lexical_cast": "std::bad_cast", "boost::bad_any_cast": "std::bad_cast",
    "boost::program_options::error": "std::logic_error", "boost::bad_function_call": "std::runtime_error",
    "boost::escaped_list_error": "std::runtime_error",
}

#: functions that end the process
ENDS = re.compile(r"^(std::)?(terminate|abort|exit|_exit|_Exit|quick_exit|raise|kill|__assert_fail|longjmp|siglongjmp|unexpected|"
                  r"__builtin_trap|__builtin_abort|__builtin_unreachable)$|^boost::throw_exception_assert")

POS = re.compile(r"^std::(__cxx11::)?basic_string(_view)?::(substr|compare|insert|erase|replace|copy|append|assign|basic_string|basic_string_view)$")


def external(name, f, call):
    """exception types of a library function without a body here (names are short)"""
    last = name.rsplit("::", 1)[-1]
    ps = [p["t"] for p in f.get("params", [])]
    args = call.get("args") or []
    if re.match(r"^std::(sto(i|l|ul|ll|ull|f|d|ld))$", name):
        return {"std::invalid_argument", "std::out_of_range"}
    if re.match(r"^std::(vector|deque|array|map|unordered_map|basic_string|basic_string_view|bitset)::(at|test|set|reset|flip)$", name):
        return {"std::out_of_range"}
    if POS.match(name):
        return {"std::out_of_range"} if positions(last, ps, args) else set()
    if name in ("std::optional::value",):
        return {"std::bad_optional_access"}
    if name in ("std::get", "std::visit") and "variant" in " ".join(ps):
        return {"std::bad_variant_access"}
    if name == "std::any_cast" and not any("*" in p for p in ps):
        return {"std::bad_any_cast"}
    if name in ("boost::any_cast",) and not any("*" in p for p in ps):
        return {"boost::bad_any_cast"}
    if name == "boost::program_options::variable_value::as":
        return {"boost::bad_any_cast"}
    if name == "boost::lexical_cast":
        return {"boost::bad_lexical_cast"}
    if name.startswith("boost::program_options::") and last in ("run", "store", "notify", "parse_command_line", "parse_config_file", "parse_environment"):
        return {"boost::program_options::error"}
    if re.match(r"^(boost|std)::basic_regex::(basic_regex|assign|operator=)$", name):
        own = name.split("::")[0]
        if ps and "basic_regex" not in ps[0]:
            return {own + "::regex_error"}
        return set()
    if re.match(r"^boost::(regex_(match|search|replace|grep|split|format)|regex_iterator::|regex_token_iterator::|make_regex_)", name) or \
            re.match(r"^std::regex_(match|search|replace)$|^std::regex_(token_)?iterator::", name):
        return {"std::runtime_error"}
    if name == "std::locale::locale" and ps and re.search(r"char|string", ps[0]):
        return {"std::runtime_error"}
    if name == "std::use_facet":
        return {"std::bad_cast"}
    if name == "std::basic_ios::exceptions" and ps:
        return {"std::ios_base::failure"}
    if name.startswith("std::filesystem::") and not any("error_code" in p for p in ps):
        return {"std::filesystem::filesystem_error"}
    if re.match(r"^std::(thread::|mutex::lock|recursive_mutex::lock|unique_lock::lock|call_once|async|future::|shared_future::|promise::)", name):
        return {"std::system_error"}
    if name == "std::shared_ptr::shared_ptr" and any("weak_ptr" in p for p in ps):
        return {"std::bad_weak_ptr"}
    if name in ("std::rethrow_exception", "std::__throw_with_nested_impl", "std::throw_with_nested", "boost::throw_exception"):
        return {ANY}
    if name in ("std::vector::resize", "std::vector::reserve", "std::basic_string::resize", "std::basic_string::reserve"):
        return set()
    return set()


def positions(last, ps, args):
    """may the position argument of a string function be too large"""
    idx = [i for i, p in enumerate(ps) if p.replace("const ", "") in ("unsigned long", "std::size_t", "size_type", "unsigned long long")]
    if not idx:
        return False
    if last in ("append", "assign", "basic_string", "basic_string_view"):
        # (string, pos, n): only with a string as first argument
        if not (ps and "basic_string" in ps[0] and 1 in idx):
            return False
        idx = [1]
    elif last == "copy":
        idx = [i for i in idx if i == 2 or (i == len(ps) - 1 and i > 0)]
    elif last == "compare" or last in ("substr", "erase", "replace", "insert"):
        idx = [0] if 0 in idx else []
    for i in idx:
        a = args[i] if i < len(args) else None
        while a and a.get("k") in ("icast", "cast") and a.get("e"):
            a = a["e"]
        if a is None or a.get("k") == "defarg" or a.get("k") == "int" and not a.get("v"):
            continue
        return True
    return False


class Escapes:
    def __init__(self, P, memory=False, discharged=()):
        """memory: library functions that are not noexcept may also throw std::bad_alloc.
        discharged: (function id, line, type) of library exceptions shown not to be thrown"""
        self.P, self.memory, self.discharged = P, memory, set(discharged)
        self.sum = {}
        self.esc = {}
        self.assumed = set()
        self.ends = {}            # fid -> [(name, line)]
        self.roots_of_types = {}
        self.taken = None
        self.sites = 0
        self._solve()

    def mem(self, f):
        """do failing allocations of library functions called by f count"""
        return self.memory(f) if callable(self.memory) else self.memory

    # ------------------------------------------------------------ hierarchy
    def isa(self, t, b):
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x in seen:
                continue
            seen.add(x)
            r = self.P.records.get(x)
            if r and r.get("bases"):
                todo += list(r["bases"])
            if x in BASES:
                todo.append(BASES[x])
        return False

    def catches(self, h, t):
        if h.get("all") or h.get("t") is None:
            return True
        if t == ANY:
            return False
        return self.isa(t, h["t"])

    # ------------------------------------------------------------ summaries
    def summary(self, f):
        items = []
        for n in f.get("inits") or []:
            self.scan(n, items, f)
        self.scan(f.get("body"), items, f)
        if f.get("trybody"):
            self.scan(f["trybody"], items, f)
        return items

    def scan(self, n, items, f):
        if n is None:
            return
        if isinstance(n, list):
            for x in n:
                self.scan(x, items, f)
            return
        if not isinstance(n, dict):
            return
        k = n.get("k")
        if k == "try":
            body = []
            self.scan(n["b"], body, f)
            hs = []
            for h in n["handlers"]:
                hi = []
                self.scan(h["b"], hi, f)
                hs.append((h, hi))
            items.append(("try", body, hs))
            return
        if k == "throw":
            self.scan(n.get("e"), items, f)
            self.sites += 1
            items.append(("throw", n.get("tt") if n.get("e") is not None else None, n.get("l")))
            return
        if k == "sizeof" or k == "decltype":
            return
        if k == "lambda":
            for key in ("caps", "captures", "inits"):
                self.scan(n.get(key), items, f)
            if n.get("fn"):
                items.append(("call", n["fn"], n, False))
            return
        for key, v in n.items():
            if isinstance(v, (dict, list)) and key not in ("handlers",):
                self.scan(v, items, f)
        if k in ("call", "construct", "new") or n.get("fn") and k not in ("fn", "member"):
            fid = n.get("fn")
            if fid:
                items.append(("call", fid, n, bool(n.get("virtual"))))
        if k == "callptr":
            items.append(("callptr", n.get("t"), n.get("l")))
        if k == "fn" and n.get("fn"):
            items.append(("taken", n["fn"], n.get("l")))

    # ------------------------------------------------------------ fixpoint
    def _solve(self):
        P = self.P
        self.bodies = {k: f for k, f in P.fn.items() if f.get("has_body") and (f.get("body") is not None or f.get("inits"))}
        for k, f in self.bodies.items():
            self.sum[k] = self.summary(f)
            self.esc[k] = {}
        # functions whose address is taken, and functors, can be called through pointers
        self.taken = {x[1] for s in self.sum.values() for x in self.flat(s) if x[0] == "taken"}
        changed = True
        rounds = 0
        while changed:
            changed = False
            rounds += 1
            for k in self.sum:
                new = self.items(self.sum[k], None, self.bodies[k])
                old = self.esc[k]
                for t, w in new.items():
                    if t not in old:
                        old[t] = w
                        changed = True
        self.rounds = rounds

    def flat(self, items):
        for x in items:
            if x[0] == "try":
                yield from self.flat(x[1])
                for _, hi in x[2]:
                    yield from self.flat(hi)
            else:
                yield x

    def items(self, items, caught, f):
        """types -> witness (list of 'function:line')"""
        out = {}
        for x in items:
            for t, w in self.item(x, caught, f).items():
                out.setdefault(t, w)
        return out

    def where(self, f, l):
        return "%s:%s %s" % (rel(f["loc"].rsplit(":", 2)[0] + ":0:0").split(":")[0], l, self.P.sq(f))

    def item(self, x, caught, f):
        if x[0] == "throw":
            if x[1] is None:
                return dict(caught or {ANY: [self.where(f, x[2])]})
            return {x[1]: [self.where(f, x[2])]}
        if x[0] == "try":
            body = self.items(x[1], caught, f)
            out = {}
            got = [dict() for _ in x[2]]
            for t, w in body.items():
                for i, (h, hi) in enumerate(x[2]):
                    if self.catches(h, t):
                        got[i][t] = w
                        break
                    # a handler of a derived type: it may or may not match an exception of unknown dynamic type
                    if h.get("t") and t != ANY and self.isa(h["t"], t):
                        got[i][t] = w
                else:
                    out.setdefault(t, w)
            for i, (h, hi) in enumerate(x[2]):
                # also memory exhaustion and the like may be caught; rethrowing it is not counted
                for t, w in self.items(hi, got[i] or {MEMORY: ["memory"]}, f).items():
                    if t == MEMORY and w == ["memory"]:
                        continue
                    out.setdefault(t, w)
            return out
        if x[0] == "call":
            return self.call(x[1], x[2], x[3], f)
        if x[0] == "callptr":
            out = {}
            for g in self.taken:
                for t, w in self.esc.get(g, {}).items():
                    out.setdefault(t, [self.where(f, x[2])] + w)
            return out
        return {}

    def call(self, fid, n, virtual, f):
        P = self.P
        g = P.fn.get(fid)
        l = n.get("l")
        if g is None:
            return {}
        out = {}
        ids = [fid]
        if virtual:
            ids += list(P.overriders(fid))
        for i in ids:
            h = P.fn[i]
            name = P.sq(h)
            if ENDS.match(name):
                self.ends.setdefault(f["id"], set()).add((name, l))
                continue
            if h.get("noexcept"):
                continue
            if i in self.bodies:
                for t, w in self.esc[i].items():
                    if len(w) < 12:
                        out.setdefault(t, [self.where(f, l)] + w)
                continue
            if h.get("inrepo"):
                if h.get("implicit") or h.get("defaulted") or h.get("pure") or h.get("deleted"):
                    if self.mem(f) and not h.get("pure"):
                        out.setdefault(MEMORY, [self.where(f, l)])
                    continue
                out.setdefault(ANY, [self.where(f, l) + " (no body of %s)" % name])
                continue
            if h.get("linkage_c"):
                continue
            for t in external(name, h, n):
                if (f["id"], l, t) not in self.discharged:
                    out.setdefault(t, [self.where(f, l) + " (%s)" % name])
            self.assumed.add(name)
            if self.mem(f):
                out.setdefault(MEMORY, [self.where(f, l) + " (%s)" % name])
            # objects constructed by the library: make_unique (has a body), emplace_back and the like
            if re.search(r"::(emplace\w*|push_back|push_front|insert|make_\w+|construct\w*|resize|assign)$", name):
                for r in self.constructed(h):
                    for m in r.get("methods", []):
                        c = P.fn.get(m)
                        if c and c.get("kind") == "ctor" and c["id"] in self.bodies and not c.get("noexcept"):
                            for t, w in self.esc[c["id"]].items():
                                out.setdefault(t, [self.where(f, l)] + w)
        return out

    def constructed(self, h):
        out = []
        for m in re.finditer(r"[\w:]+", h["qn"]):
            r = self.P.records.get(m.group(0))
            if r and r.get("inrepo"):
                out.append(r)
        todo = list(h.get("targs") or [])
        while todo:
            t = todo.pop()
            if isinstance(t, list):
                todo += t
                continue
            if not isinstance(t, str):
                continue
            r = self.P.records.get(re.sub(r"\b(const|class|struct)\s+|[&* ]+$", "", t).strip())
            if r and r.get("inrepo"):
                out.append(r)
        return out

    # ------------------------------------------------------------ queries
    def reach(self, roots):
        """functions with bodies reachable from the roots, with one path each"""
        seen = {}
        todo = [(r, [self.P.sq(r)]) for r in roots]
        while todo:
            k, path = todo.pop()
            if k in seen:
                continue
            seen[k] = path
            for x in self.flat(self.sum.get(k, [])):
                nxt = []
                if x[0] == "call":
                    nxt = [x[1]] + (list(self.P.overriders(x[1])) if x[3] else [])
                    g = self.P.fn.get(x[1])
                    if g is not None and x[1] not in self.bodies and not g.get("inrepo"):
                        if re.search(r"::(emplace\w*|push_back|push_front|insert|make_\w+|construct\w*|resize|assign)$", self.P.sq(g)):
                            nxt += [m for r in self.constructed(g) for m in r.get("methods", []) if self.P.fn.get(m, {}).get("kind") == "ctor"]
                elif x[0] == "callptr":
                    nxt = list(self.taken)
                for y in nxt:
                    if y in self.P.fn and y not in seen:
                        todo.append((y, path + [self.P.sq(y)]))
        return seen

    def terminates(self, reach):
        """(function, type, witness): exceptions that leave a noexcept function; (function, name, line): calls that end the process"""
        out = []
        for k in reach:
            f = self.bodies.get(k)
            if f is None:
                continue
            if f.get("noexcept") and self.esc[k]:
                for t, w in self.esc[k].items():
                    if t != MEMORY:
                        out.append((f, t, w))
        return out
