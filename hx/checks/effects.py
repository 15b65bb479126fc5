"""C06: extraction has no side effects and no hidden inputs.

Interprocedural effect analysis (modified regions, flow-insensitive points-to regions per function) of everything that
can be called while rules are matched, values captured and results extracted."""
import re
import subprocess

from .. import facts
from ..dom import INTS, is_ref, noref, strip_cv
from ..facts import AnalysisBroken, rel, short, walk
from .cmdline import guarded

THIS, DEEP, ANY = ("t",), ("t*",), ("?",)

#: objects that refer to something they do not contain
VIEW = re.compile(r"^(const )?((std|boost|__gnu_cxx)::(__cxx11::)?(basic_string_view|span|reference_wrapper|unique_ptr|shared_ptr|weak_ptr|__normal_iterator|_\w*iterator\w*|reverse_iterator|"
                  r"move_iterator|back_insert_iterator|insert_iterator|tokenizer|token_iterator|sub_match|match_results|regex_iterator|iterator_range|function|_List_iterator|_Rb_tree\w*iterator)\b|.*\biterator\b)|.*\*( ?const)?$")
OWNING = re.compile(r"^(const )?std::(unique_ptr|shared_ptr|weak_ptr|function)\b")
READING = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "back", "front", "at", "operator[]", "data", "c_str", "size", "length", "empty", "capacity", "max_size", "get",
           "operator*", "operator->", "find", "rfind", "count", "lower_bound", "upper_bound", "equal_range", "value", "has_value", "operator bool", "str", "native_handle", "top", "operator()"}
#: algorithms that write through iterators they are given by value
WRITING = re.compile(r"^std::(transform|copy\w*|move(_backward)?|fill\w*|generate\w*|iota|remove\w*|replace\w*|unique\w*|reverse\w*|rotate\w*|shuffle|sort|stable_sort|partial_sort\w*|nth_element|"
                     r"inplace_merge|merge|partition\w*|stable_partition|swap_ranges|iter_swap|set_\w+|make_heap|push_heap|pop_heap|sort_heap|next_permutation|prev_permutation|uninitialized_\w+|"
                     r"exclusive_scan|inclusive_scan|partial_sum|adjacent_difference|memcpy|memmove|memset|strcpy|strcat|strncpy|sprintf|snprintf)$")
#: functions whose result depends on something else than their arguments, or that change the state of the process
HIDDEN = re.compile(r"^(std::)?(rand|srand|random|srandom|rand_r|drand48|lrand48|getrandom|time|clock|clock_gettime|gettimeofday|localtime|gmtime|ctime|strftime|getenv|secure_getenv|setenv|putenv|"
                    r"setlocale|localeconv|uselocale|newlocale|nl_langinfo|getpid|getppid|getuid|gethostname|getcwd|tmpnam|mkstemp|fopen|open|read|write|fread|fwrite|fgets|fputs|puts|printf|fprintf|putchar|"
                    r"fputc|getc|getchar|scanf|system|popen|fork|signal|raise|strtok|strerror|rand_s|errno|__errno_location|"
                    r"isspace|isalpha|isalnum|isdigit|isupper|islower|ispunct|isprint|isgraph|iscntrl|isxdigit|isblank|tolower|toupper|iswspace|towlower|towupper|mbstowcs|wcstombs|mbtowc|mbrtowc|strcoll|strxfrm|"
                    r"atof|strtod|strtof|stod|stof|stold|"
                    r"this_thread::get_id|pthread_self)$"
                    r"|^boost::(conversion::)?(try_)?lexical_cast|^std::chrono::.*::now$|^std::random_device\b|^std::locale::global$|^std::(basic_(i|o)?fstream|filesystem)\b|^std::this_thread::|^std::hash<.*\*>")
#: isdigit and isxdigit do not depend on the locale
HARMLESS = {"isdigit", "isxdigit", "std::isdigit", "std::isxdigit"}
STREAMS = {"cout", "cerr", "clog", "cin", "wcout", "wcerr", "stdout", "stderr", "stdin"}
SORTING = re.compile(r"^std::(ranges::)?(stable_sort|sort|partial_sort\w*|nth_element|\w*heap|minmax_element|min_element|max_element|minmax|min|max|lower_bound|upper_bound|binary_search|equal_range|merge|inplace_merge|"
                     r"is_sorted\w*|set_\w+|includes|lexicographical_compare|operator<|operator>|operator<=|operator>=|operator<=>|less|greater)\b")
NODEPTR = re.compile(r"[< ,](const )?(Gumbo|hext::)\w* ?\*( ?const)?( ?[*,&>]|$)")
NUMBER = re.compile(r"^(const )?(bool|(unsigned |signed )?(short|int|long|long long)|unsigned|float|double|long double|(const )?void ?\*)$")
ORDERED = re.compile(r"^(const )?std::(set|map|multiset|multimap)<(const )?[^<>,]*\* ?(const)?[,>]|^(const )?std::unordered_(set|map|multiset|multimap)<(const )?[^<>,]*\* ?(const)?[,>]")


def program():
    return facts.load(facts.lib_units())


def carries(t):
    """can a value of this type refer to something else"""
    t = strip_cv(noref(t or "")).strip()
    if INTS.get(t) or t in ("bool", "double", "float", "void", "std::nullptr_t", "nullptr_t"):
        return False
    return not re.match(r"^std::(__cxx11::)?basic_string<[^<>]*<[^<>]*>, [^<>]*<[^<>]*>>$|^(std::)?(__cxx11::)?(basic_)?[io]*(string|f)?stream\b", t)


class Function:
    """one function: what its variables may refer to, what it writes, what it returns"""

    def __init__(self, A, f):
        self.A, self.P, self.f = A, A.P, f
        self.C = {}      # variable -> what its value refers to
        self.REF = {}    # reference -> objects
        self.writes = {}  # region -> place
        self.retL, self.retV = set(), set()
        self.nodes = self.collect(f)
        for i, p in enumerate(f["params"]):
            if is_ref(p["t"]):
                self.REF[p["id"]] = {("p", i)}
            else:
                self.C[p["id"]] = {("p*", i)} if carries(p["t"]) else set()

    def collect(self, f):
        res, todo, seen = [], [f.get("body"), f.get("inits")], set()
        while todo:
            for n in walk(todo.pop()):
                res.append(n)
                if n.get("k") == "lambda" and n["fn"] in self.P.fn and n["fn"] not in seen:
                    seen.add(n["fn"])
                    g = self.P.fn[n["fn"]]
                    self.lambdas = getattr(self, "lambdas", {})
                    self.lambdas[n["fn"]] = g
                    todo.append(g.get("body"))
        return res

    # ------------------------------------------------------------ regions
    def star(self, rs):
        out = set()
        for r in rs:
            if r[0] == "t":
                out.add(DEEP)
            elif r[0] == "p":
                out.add(("p*", r[1]))
            elif r[0] == "l":
                out |= self.C.get(r[1], set())
            else:
                out.add(r)
        return out

    def var(self, e):
        i = e["id"]
        if e.get("vk") not in ("local", "param") or i in self.P.globals:
            return {("g", i)}
        if i in self.REF:
            return set(self.REF[i])
        return {("l", i)}

    def L(self, e):
        """regions the object e designates may lie in"""
        if not isinstance(e, dict):
            return set()
        k = e.get("k")
        if k == "var":
            return self.var(e)
        if k == "member":
            base = self.V(e["base"]) if e.get("arrow") else self.L(e["base"])
            t = e.get("ft") or e.get("t") or ""
            return self.star(base) if is_ref(t) else base
        if k == "this":
            return {THIS}
        if k == "unop":
            return self.V(e["e"]) if e["op"] == "*" else self.L(e["e"])
        if k == "index":
            b = e["base"] if "base" in e else e.get("e")
            return self.V(b) | (self.L(b) if "[" in (b.get("t") or "") else set())
        if k in ("cast", "icast", "defarg", "stdinit"):
            return self.L(e.get("e"))
        if k in ("cond", "elvis"):
            return self.L(e.get("a")) | self.L(e.get("b")) | (self.L(e.get("c")) if k == "elvis" else set())
        if k == "assign":
            return self.L(e.get("l_") or e.get("a"))
        if k == "binop" and e.get("op") == ",":
            return self.L(e["r_"])
        if k == "call":
            return self.called(e)[0]
        return {("l", "tmp")}

    def V(self, e):
        """regions the value of e may refer to"""
        if not isinstance(e, dict) or not carries(e.get("t")):
            return set()
        k = e.get("k")
        if k == "this":
            return {THIS}
        if k == "unop" and e["op"] == "&":
            return self.L(e["e"])
        if k in ("var", "member", "index") or k == "unop" and e["op"] == "*":
            l = self.L(e)
            if "[" in (e.get("t") or ""):
                return l
            return self.star(l)
        if k in ("cast", "icast", "defarg", "stdinit"):
            if e.get("ck") == "ArrayToPointerDecay":
                return self.L(e["e"])
            return self.V(e.get("e"))
        if k in ("cond", "elvis"):
            return self.V(e.get("a")) | self.V(e.get("b")) | (self.V(e.get("c")) if k == "elvis" else set())
        if k == "binop":
            return self.V(e.get("l_")) | self.V(e.get("r_"))
        if k == "unop":
            return self.V(e["e"])
        if k == "assign":
            return self.V(e.get("r_") or e.get("b"))
        if k == "call":
            return self.called(e)[1]
        if k == "construct":
            out = set()
            for a in e.get("args") or []:
                out |= self.V(a)
                if VIEW.match(e.get("t") or "") and not OWNING.match(e.get("t") or "") and not VIEW.match(a.get("t") or ""):
                    out |= self.L(a)
            return out
        if k == "init":
            out = set()
            for a in e.get("args") or []:
                out |= self.V(a)
            return out
        if k == "new":
            key = ("new", e.get("l"))
            for x in e.get("args") or [e.get("init")]:
                if x is not None:
                    self.C.setdefault(key, set()).update(self.V(x))
            return {("l", key)}
        if k == "lambda":
            out = set()
            for c in e.get("captures") or []:
                if c.get("this"):
                    out.add(THIS)
                elif c.get("byref"):
                    out |= self.REF.get(c["id"], {("l", c["id"])})
                else:
                    out |= self.C.get(c["id"], set())
            return out
        return set()

    def object(self, e):
        o = e.get("obj")
        if o is None:
            return set()
        return self.V(o) if e.get("arrow") else self.L(o)

    def called(self, e):
        """(objects a returned reference may designate, what a returned value may refer to)"""
        fn = self.P.fn.get(e.get("fn"))
        if fn is None:
            return {ANY}, {ANY}
        args = e.get("args") or []
        obj = self.object(e)
        if self.A.mine(fn):
            L, V = set(), set()
            for g in self.A.targets(fn, e):
                s = self.A.sum.get(g["id"])
                if s is not None:
                    L |= self.map(s.retL, g, obj, args)
                    V |= self.map(s.retV, g, obj, args)
            return L, V | (self.star(L) if is_ref(fn["ret"]) else set())
        name = self.P.sq(fn)
        if fn.get("record") and e.get("obj") is not None:
            ot = (e["obj"].get("t") or "")
            if e.get("arrow"):
                ot = re.sub(r" ?\*( ?const)?$", "", ot)
            rec = strip_cv(fn["record"])
            L = self.star(obj) if VIEW.match(rec) or VIEW.match(strip_cv(ot)) else obj
            if fn["name"] in ("operator=", "operator+=", "operator++", "operator--", "append", "insert", "erase", "assign") and is_ref(fn["ret"]):
                L = obj
            if is_ref(fn["ret"]):
                return L, self.star(L)
            if VIEW.match(rec):
                return self.star(obj), self.star(obj)
            return obj, obj | (self.star(obj) if not VIEW.match(fn["ret"]) else set())
        L, V = set(), set()
        if fn["name"] in ("make_unique", "make_shared", "allocate_shared", "make_optional", "make_pair", "make_tuple"):
            key = ("new", e.get("l"))
            c = self.C.setdefault(key, set())
            for a in args:
                c |= self.V(a)
            return {("l", key)}, {("l", key)} if "make_unique" in fn["name"] or "shared" in fn["name"] else set(c)
        if fn["name"] in ("operator<<", "operator>>", "getline") and args and is_ref(fn["ret"]):
            return self.L(args[0]), set()
        for i, a in enumerate(args):
            r = i < len(fn["params"]) and is_ref(fn["params"][i]["t"])
            if r:
                L |= self.L(a)
            else:
                L |= self.V(a)
            V |= self.V(a)
            if r and (VIEW.match(fn["ret"]) or is_ref(fn["ret"])) and not VIEW.match(a.get("t") or ""):
                V |= self.L(a)
        if is_ref(fn["ret"]) and not fn["name"] in ("addressof", "__addressof"):
            return L, self.star(L)
        return L, V if carries(fn["ret"]) else set()

    def map(self, regions, g, obj, args):
        out = set()
        for r in regions:
            if r == THIS:
                out |= obj
            elif r == DEEP:
                out |= self.star(obj)
            elif r[0] in ("p", "p*"):
                if r[1] >= len(args):
                    continue
                a, t = args[r[1]], g["params"][r[1]]["t"]
                if r[0] == "p":
                    out |= self.L(a) if is_ref(t) else set()
                else:
                    out |= self.star(self.L(a)) | self.V(a) if is_ref(t) else self.V(a)
            else:
                out.add(r)
        return out

    # ------------------------------------------------------------ one round
    def flow(self, rs, v):
        """values v are stored in the objects rs"""
        for r in rs:
            if r[0] == "l" and not v <= self.C.get(r[1], set()):
                self.C.setdefault(r[1], set()).update(v)
                self.changed = True

    def bind(self, i, rs):
        if not rs <= self.REF.get(i, set()):
            self.REF.setdefault(i, set()).update(rs)
            self.changed = True

    def place(self, n):
        return "%s:%s %s" % (rel(self.f["loc"].rsplit(":", 2)[0] + ":0:0").split(":")[0], str(n.get("l") or "").split(":")[0], short(self.f["qn"]))

    def write(self, rs, n, what, place=None):
        for r in rs:
            if r[0] == "l":
                continue
            if r not in self.writes:
                self.writes[r] = place or (self.place(n), what)
                self.changed = True

    def declare(self, v, init):
        if init is None:
            return
        if v.get("static"):
            return
        if v.get("ref") or is_ref(v.get("t") or ""):
            self.bind(v["id"], self.L(init))
        else:
            self.flow({("l", v["id"])}, self.V(init))

    def run(self):
        self.changed = True
        any_change = False
        while self.changed:
            self.changed = False
            for n in self.nodes:
                self.node(n)
            any_change = any_change or self.changed
        return any_change

    def node(self, n):
        k = n.get("k")
        if k == "decl":
            for v in n["vars"]:
                self.declare(v, v.get("init"))
                for b in v.get("bindings") or ():
                    if isinstance(b, dict) and b.get("id"):
                        self.bind(b["id"], self.L(v.get("init")))
        elif k == "rangefor":
            v, r = n["var"], n.get("range") or n.get("e")
            t = (r or {}).get("t") or ""
            rs = self.V(r) if VIEW.match(t) else self.L(r)
            vs = [v] if isinstance(v, dict) else v
            for x in vs:
                if x.get("ref") or is_ref(x.get("t") or ""):
                    self.bind(x["id"], rs)
                else:
                    self.flow({("l", x["id"])}, self.star(rs))
                for b in x.get("bindings") or ():
                    if isinstance(b, dict) and b.get("id"):
                        self.bind(b["id"], rs)
        elif k == "assign":
            a, b = n.get("l_") or n.get("a"), n.get("r_") or n.get("b")
            rs = self.L(a)
            self.write(rs, n, "assignment")
            self.flow(rs, self.V(b))
        elif k == "unop" and n["op"].rstrip("post") in ("++", "--"):
            self.write(self.L(n["e"]), n, n["op"][:2])
        elif k == "delete":
            self.write(self.V(n.get("e")), n, "delete")
        elif k == "return":
            if n.get("e") is not None:
                self.returned(n["e"])
        elif k in ("call", "construct"):
            self.callsite(n)
        elif "init" in n and "f" in n and k is None:
            # member initialiser
            self.flow({THIS}, set())

    def returned(self, e):
        a = self.L(e) if is_ref(self.f["ret"]) else set()
        b = self.V(e)
        a = {r for r in a if r[0] != "l"}
        b = {r for r in b if r[0] != "l"}
        if not a <= self.retL or not b <= self.retV:
            self.retL |= a
            self.retV |= b
            self.changed = True

    def callsite(self, e):
        fn = self.P.fn.get(e.get("fn"))
        if fn is None:
            return
        args = e.get("args") or []
        obj = self.object(e) if e["k"] == "call" else {("l", "tmp")}
        # arguments of lambdas called by library functions
        if not self.A.mine(fn):
            fs = [a for a in args if has_lambda(a)]
            if fs:
                seen = set()
                for a in args:
                    if a not in fs:
                        seen |= self.V(a) | self.L(a)
                for lid, g in getattr(self, "lambdas", {}).items():
                    for p in g["params"]:
                        if is_ref(p["t"]):
                            self.bind(p["id"], {r for r in seen})
                        elif carries(p["t"]):
                            self.flow({("l", p["id"])}, self.star(seen))
        if fn.get("lambda") or fn["id"] in getattr(self, "lambdas", {}):
            for p, a in zip(fn["params"], args):
                if is_ref(p["t"]):
                    self.bind(p["id"], self.L(a))
                else:
                    self.flow({("l", p["id"])}, self.V(a))
            return
        if self.A.mine(fn):
            for g in self.A.targets(fn, e):
                s = self.A.sum.get(g["id"])
                if s is None:
                    continue
                for r, where in list(s.writes.items()):
                    self.write(self.map({r}, g, obj, args), e, None, where)
            # objects passed by reference may be given what the others refer to
            vs = set()
            for a in args:
                vs |= self.V(a)
            for p, a in zip(fn["params"], args):
                if is_ref(p["t"]) and not p["t"].startswith("const "):
                    self.flow(self.L(a), vs | self.star(obj))
            if not fn.get("const"):
                self.flow(obj, vs)
            return
        name = self.P.sq(fn)
        kind = fn.get("kind")
        if fn.get("record") and e["k"] == "call" and not fn.get("static") and kind not in ("ctor", "dtor"):
            if not fn.get("const") and fn["name"] not in READING:
                self.write(obj, e, fn["name"])
                vs = set()
                for a in args:
                    vs |= self.V(a)
                self.flow(obj, vs)
        for i, a in enumerate(args):
            t = fn["params"][i]["t"] if i < len(fn["params"]) else ""
            if fn["name"] in ("move", "forward", "addressof", "__addressof", "as_const", "get", "begin", "end", "data", "size", "ref", "cref", "back_inserter", "min", "max", "move_if_noexcept", "to_address") \
                    and not WRITING.match(name) or fn["name"] == "move" and len(args) == 1:
                continue
            if is_ref(t):
                if t.startswith("const ") or t.endswith("&&") and not moved(a):
                    continue
                if t.endswith("&&") and kind == "ctor" and moved(a) or t.endswith("&&"):
                    self.write(self.L(a), e, "moved into %s" % short(name))
                    continue
                if fn["name"] in ("operator==", "operator!=", "operator<", "make_unique", "emplace_back", "emplace", "make_shared", "make_pair", "operator-") or kind == "ctor":
                    continue
                if fn["name"] == "operator<<" and i:
                    continue
                self.write(self.L(a), e, "passed to %s" % short(name))
                if fn["name"] in ("operator<<", "operator>>", "getline", "swap"):
                    self.flow(self.L(a), set().union(*[self.V(x) for x in args]) if fn["name"] == "swap" else set())
            elif re.search(r"\*( ?const)?$", t) and not re.match(r"^const |.* const ?\*", t) and not fn["name"].startswith("operator") and kind != "ctor":
                if name not in self.A.pure:
                    self.write(self.V(a), e, "passed to %s" % short(name))
            elif WRITING.match(name) and not re.search(r"<const |const_iterator|^const \w+ ?\*", a.get("t") or t):
                self.write(self.V(a), e, "passed to %s" % short(name))


def has_lambda(a):
    return any(n.get("k") == "lambda" for n in walk(a)) or "(lambda at" in (a.get("t") or "")


def moved(a):
    """an lvalue that is moved from"""
    while isinstance(a, dict) and a.get("k") in ("cast", "icast"):
        a = a.get("e")
    return isinstance(a, dict) and a.get("k") == "call" and (a.get("qn") or "").split("<")[0] in ("std::move", "std::forward", "std::exchange")


class Effects:
    #: external functions that do not write through their non-const pointers
    pure = {"gumbo_vector_index_of", "gumbo_get_attribute", "strlen", "std::strlen", "free", "std::free"}

    def __init__(self, P):
        self.P = P
        self.sum = {}
        self.opaque = set()

    def mine(self, fn):
        return bool(fn.get("has_body")) and bool(fn.get("inrepo")) and not fn.get("lambda") or bool(fn.get("virtual")) and bool(fn.get("inrepo"))

    def targets(self, fn, e=None):
        if fn.get("virtual") and (e is None or e.get("virtual") is not False):
            gs = [self.P.fn[x] for x in self.P.overriders(fn["id"])] if fn["id"] in self.P.fn else []
            gs = [g for g in gs if g.get("has_body")]
            return gs + ([fn] if fn.get("has_body") and fn not in gs else [])
        return [fn]

    def reach(self, roots):
        """functions that can be called, with the caller"""
        via = {f["id"]: None for f in roots}
        todo = list(roots)
        while todo:
            f = todo.pop()
            for n in [*walk(f.get("body")), *walk(f.get("inits"))]:
                for key in ("fn",):
                    g = self.P.fn.get(n.get(key))
                    if g is None:
                        continue
                    for t in (self.targets(g, n) if self.mine(g) else [g]):
                        if t["id"] not in via:
                            via[t["id"]] = (f["id"], n)
                            if t.get("has_body") and t.get("inrepo"):
                                todo.append(t)
        return via

    def solve(self, ids):
        fs = [Function(self, self.P.fn[i]) for i in ids if self.P.fn[i].get("has_body") and self.P.fn[i].get("inrepo") and not self.P.fn[i].get("lambda")]
        for x in fs:
            self.sum[x.f["id"]] = x
        for _ in range(50):
            if not any([x.run() for x in fs]):
                return
        raise AnalysisBroken("effects do not become stable")


def roots(P):
    """public functions of the library that may run while a rule is applied"""
    res = []
    for f in P.fn.values():
        if not f.get("inrepo") or not f.get("has_body") or "/libhext/" not in f["loc"] or "/bindings/" in f["loc"] or f.get("lambda"):
            continue
        q = P.sq(f)
        if not q.startswith("hext::") or re.match(r"hext::(Parser|PatternValues|ParseHext|Html)\b", q):
            continue
        if f.get("record"):
            if f.get("const") and f.get("kind") not in ("ctor", "dtor") and f["name"] != "operator=":
                res.append(f)
        elif f.get("ret") != "void" and f["params"] and any("GumboInternalNode" in p["t"] or "GumboNode" in p["t"] for p in f["params"]):
            res.append(f)
    return res


@guarded
def c06(R):
    R.rule("nothing written", "no path from a function that matches, captures, transforms or extracts writes to the rule object, to anything it or a const argument refers to, or to a global or static variable", minimum=40)
    R.rule("no hidden input", "nothing that can be called reads the locale, the environment, clocks, random numbers, files, or mutable global state, or depends on the order of addresses", minimum=40)
    R.rule("initialised", "every constructor of the library gives every member of scalar type a value, and no local variable is read before it has one", minimum=20)
    P = program()
    A = Effects(P)
    rs = roots(P)
    via = A.reach(rs)
    A.solve(via)
    ids = [i for i in via if i in A.sum]
    for i in ids:
        R.fn(P.fn[i])
    bad = set()
    for f in rs:
        s = A.sum[f["id"]]
        what = "%s %s" % (rel(f["loc"]).rsplit(":", 1)[0], short(f["qn"]))
        wrong = {}
        for r, (where, how) in s.writes.items():
            m = forbidden(P, f, r)
            if m:
                wrong[where] = (m, how)
        for where, (m, how) in sorted(wrong.items()):
            if where not in bad:
                bad.add(where)
                R.violation("nothing written", where, "%s: %s: %s" % (where, m, how), key="write:%s" % where)
        if not wrong:
            R.ok("nothing written", what)
    hidden(R, P, A, via)
    initialised(R, P)
    warnings(R)
    return R.finish("other", "interprocedural effect analysis of %d functions reachable from %d roots: regions every reference, pointer and iterator may refer to, regions every statement writes; "
                    "call-graph closure for inputs; constructors and clang's flow analysis for values that are never set" % (len(ids), len(rs)), TRUST)


TRUST = ["functions given by the user (FunctionCapture, FunctionMatch, FunctionValueMatch) have no side effects", "const member functions of standard and Boost containers, strings and regular expressions write nothing shared",
         "boost::regex carries the locale it was made with (the documented option c of a rule)"]


def forbidden(P, f, r):
    if r == THIS or r == DEEP:
        return "%s changes %s" % (short(f["qn"]), "the object it is called for" if r == THIS else "what its object refers to")
    if r[0] == "g":
        g = P.globals.get(r[1], {})
        return "%s changes the variable %s, which outlives the call" % (short(f["qn"]), g.get("name") or r[1])
    if r[0] in ("p", "p*"):
        t = f["params"][r[1]]["t"]
        if r[0] == "p" and is_ref(t) and not t.startswith("const "):
            return None
        if r[0] == "p*" and re.search(r"\*( ?const)?$", noref(t)) and not re.match(r"^const ", t):
            return None
        if r[0] == "p*" and not ("Gumbo" in t or "hext::" in t or t.startswith("const ")):
            return None
        return "%s changes what its argument %s refers to" % (short(f["qn"]), f["params"][r[1]]["name"] or r[1])
    return None


def path(P, via, i):
    names = []
    while i is not None and len(names) < 6:
        names.append(short(P.fn[i]["qn"]))
        v = via.get(i)
        i = v[0] if v else None
    return " <- ".join(names)


def written_globals(A, P):
    return {r[1] for s in A.sum.values() for r in s.writes if r[0] == "g"}


def hidden(R, P, A, via):
    w = written_globals(A, P)
    for i, v in via.items():
        f = P.fn[i]
        if not (f.get("has_body") and f.get("inrepo")):
            continue
        ok = True
        imbued = any(n.get("k") == "call" and (n.get("qn") or "").endswith("::imbue") for n in walk(f.get("body")))

        def bad(n, msg):
            where = "%s:%s %s" % (rel(f["loc"].rsplit(":", 2)[0] + ":0:0").split(":")[0], str(n.get("l") or "").split(":")[0], short(f["qn"]))
            R.violation("no hidden input", where, "%s: %s (called via %s)" % (where, msg, path(P, via, i)), key="%s:%s" % (short(f["qn"]), msg))
        for n in [*walk(f.get("body")), *walk(f.get("inits"))]:
            k = n.get("k")
            if k in ("call", "construct", "fn"):
                g = P.fn.get(n.get("fn"))
                q = P.sq(g) if g else (n.get("qn") or "")
                if q == "std::locale::locale" and not n.get("args"):
                    ok = False
                    bad(n, "reads the global locale")
                elif HIDDEN.match(q) and q not in HARMLESS and not (g and len(g["params"]) == 2 and "std::locale" in g["params"][1]["t"]):
                    ok = False
                    bad(n, "%s depends on more than its arguments" % q)
            if k == "var" and n.get("vk") not in ("local", "param"):
                g = P.globals.get(n["id"])
                if n.get("name") in STREAMS:
                    ok = False
                    bad(n, "uses %s" % n["name"])
                elif g is not None and not g.get("const") and not g.get("constexpr") and (g.get("inrepo") or n["id"] in w) and (n["id"] in w or g.get("static_local") or g.get("tls") or g.get("extlinkage")):
                    ok = False
                    bad(n, "reads the variable %s, which can change between calls" % n["name"])
            if k == "decl":
                for x in n["vars"]:
                    if x.get("static") and x.get("init") is not None:
                        used = [m for m in walk(x["init"]) if m.get("k") == "this" or m.get("k") == "var" and m.get("vk") in ("local", "param")]
                        if used:
                            ok = False
                            bad(n, "static variable %s keeps what the first call gave it" % x["name"])
                        elif not (x.get("t") or "").startswith("const ") and not is_ref(x.get("t") or "") and x["id"] in w:
                            ok = False
                            bad(n, "static variable %s changes" % x["name"])
            if k == "call":
                g = P.fn.get(n.get("fn"))
                q = P.sq(g) if g else (n.get("qn") or "")
                args = n.get("args") or []
                if SORTING.match(q) and by_address(g, args):
                    ok = False
                    bad(n, "orders by address (%s)" % q)
                if not imbued and q.rsplit("::", 1)[-1] in ("operator<<", "operator>>") and "basic_" in q and args and NUMBER.match(noref(args[0].get("t") or "")) and g and g["params"] and NUMBER.match(noref(g["params"][0]["t"])):
                    ok = False
                    bad(n, "a number is formatted by the global locale")
            if k == "binop" and n.get("op") in ("<", ">", "<=", ">=") and all(nodes_address(n.get(s)) for s in ("l_", "r_")):
                ok = False
                bad(n, "compares the addresses of nodes")
            if k in ("cast", "icast") and n.get("ck") == "PointerToIntegral":
                ok = False
                bad(n, "uses an address as a number")
            if k == "rangefor" and ORDERED.match(((n.get("range") or n.get("e") or {}).get("t") or "")):
                ok = False
                bad(n, "goes through a container in the order of addresses")
            if k == "call" and n.get("obj") is not None and (n.get("qn") or "").split("<")[0].startswith("std::") and ORDERED.match(n["obj"].get("t") or "") and (n.get("qn") or "").rsplit("::", 1)[-1] in ("begin", "cbegin", "rbegin"):
                ok = False
                bad(n, "goes through a container in the order of addresses")
        if ok:
            R.ok("no hidden input", "%s %s" % (rel(f["loc"]).rsplit(":", 1)[0], short(f["qn"])))


def by_address(g, args):
    """elements are compared by operator< although they contain addresses of nodes or rules"""
    if not args or any(has_lambda(a) for a in args):
        return False
    t = strip_cv(noref(args[0].get("t") or ""))
    m = re.match(r"^__gnu_cxx::__normal_iterator<(.*) ?\*, .*>$", t)
    if m:
        # what the iterator points at
        d, e = 0, m.group(1)
        for i, c in enumerate(t):
            d += c == "<"
            d -= c == ">"
            if c == "," and d == 1:
                e = t[len("__gnu_cxx::__normal_iterator<"):i]
                break
        e = re.sub(r" ?\*$", "", e.strip())
        plain = [a for a in args if strip_cv(noref(a.get("t") or "")) != t]
        if plain and not all("operator" in (x.get("qn") or "") for x in plain):
            return False
        return bool(NODEPTR.search("<" + e + ">"))
    return bool(NODEPTR.search("<" + t + ">")) and bool(re.match(r"^std::(pair|tuple|vector|array)<|.*\*$", t))


def nodes_address(e):
    return bool(re.match(r"^(const )?(struct )?\w*(Gumbo|hext::)\w* ?\*", (e or {}).get("t") or ""))


SCALAR = re.compile(r"^(const )?(bool|(unsigned |signed )?(char|short|int|long|long long)|unsigned|float|double|std::size_t|std::u?int\d+_t|size_t|.*\*( const)?)$")


def initialised(R, P):
    for f in P.fn.values():
        if f.get("kind") != "ctor" or not f.get("inrepo") or "/libhext/" not in f["loc"] or f.get("deleted") or f.get("implicit") or f.get("defaulted") or not f.get("has_body"):
            continue
        rec = P.records.get(strip_cv(f["record"]))
        if rec is None:
            continue
        R.fn(f)
        inits = f.get("inits") or []
        if any(x.get("delegating") for x in inits) or f.get("copyctor") or f.get("movector"):
            continue
        done = {x.get("field") for x in inits if x.get("e") is not None}
        todo, seen = [f], {f["id"]}
        while todo:
            for n in walk(todo.pop().get("body")):
                k = n.get("k")
                a = n.get("l_") or n.get("a") if k == "assign" else n.get("e") if k == "unop" and n.get("op") == "&" else None
                if isinstance(a, dict) and a.get("k") == "member":
                    done.add(a["f"])
                if k == "call":
                    for a in n.get("args") or ():
                        if a.get("k") == "member":
                            done.add(a["f"])
                    g = P.fn.get(n.get("fn"))
                    if g and g.get("record") == f["record"] and g["id"] not in seen and g.get("body"):
                        seen.add(g["id"])
                        todo.append(g)
        for x in rec.get("fields", ()):
            t = x["t"]
            if not (SCALAR.match(t) or strip_cv(t) in P.enums):
                continue
            what = "%s: %s" % (short(f["qn"]), x["name"])
            R.check("initialised", x["name"] in done or x.get("init") is not None or bool(x.get("hasinit")), "%s %s" % (rel(f["loc"]).rsplit(":", 1)[0], what),
                    "%s: the member %s has no value after this constructor" % (short(f["qn"]), x["name"]), key="member:%s" % what)


def warnings(R):
    """variables that are read before they have a value (clang's flow analysis)"""
    import concurrent.futures

    def one(u):
        r = subprocess.run(["clang++", "-fsyntax-only", "-Wno-everything", "-Wuninitialized", "-Wsometimes-uninitialized"] + [x for x in u.flags if x != "-w"] + [u.src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return u, r
    units = facts.lib_units()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for u, r in ex.map(one, units):
            found = re.findall(r"^(/[^:\n]+):(\d+):\d+: (?:warning|error): (.*?) \[-W(?:sometimes-)?uninitialized", r.stdout, re.M)
            for p, l, msg in found:
                where = "%s:%s" % (rel(p + ":0:0").split(":")[0], l)
                R.violation("initialised", where, "%s: %s" % (where, msg), key="uninit:%s:%s" % (where, msg))
            if r.returncode:
                R.skip(u.src, "clang: %s" % r.stdout[-200:])
            elif not found:
                R.ok("initialised", "locals of %s" % rel(u.src + ":0:0").split(":")[0])
