"""C08: the bindings turn every C++ exception into an exception of the language."""
import re

from .. import escape
from ..bindings import Bindings
from ..facts import AnalysisBroken, walk, rel

RAISE = {
    "python": re.compile(r"^PyErr_(SetString|SetObject|Format|FormatV|NoMemory|SetNone|BadArgument|SetFromErrno|BadInternalCall)$"),
    "ruby": re.compile(r"^rb_(raise|exc_raise|memerror|notimplement|bug|throw|throw_obj|jump_tag|fatal)$"),
    "php": re.compile(r"^zend_(throw_\w+|type_error|value_error|argument_error|argument_value_error|argument_type_error)$"),
    "node": re.compile(r"^(Napi::\w*Error::ThrowAsJavaScriptException|napi_throw\w*)$"),
}
#: which exceptions the glue may let through: node-addon-api catches its own errors in every callback
ALLOWED = {"node": {"Napi::Error", "Napi::TypeError", "Napi::RangeError"}}
HEXT = re.compile(r"^hext::(SyntaxError|MaxSearchError)$")


class Raising:
    """must a statement raise an exception of the language (or end the path by a C++ exception)"""

    def __init__(self, P, raises, throws=lambda t: False):
        self.P, self.re, self.throws = P, raises, throws
        self.must = {}

    def function(self, fid):
        if fid in self.must:
            return self.must[fid]
        f = self.P.fn.get(fid)
        if f is None:
            return False
        if self.re.match(self.P.sq(f)):
            self.must[fid] = True
            return True
        self.must[fid] = False
        if f.get("has_body") and f.get("body"):
            exits = []
            end = self.run(f["body"], {False}, exits, None, None)
            self.must[fid] = all(end | set(exits)) and bool(end or exits)
        return self.must[fid]

    def expr(self, e):
        """(raises, ends the path)"""
        if not isinstance(e, (dict, list)):
            return False, False
        if isinstance(e, list):
            rs = [self.expr(x) for x in e]
            return any(r[0] for r in rs), any(r[1] for r in rs)
        k = e.get("k")
        if k == "lambda":
            return False, False
        if k == "throw":
            t = e.get("tt")
            return (True, True) if e.get("e") is None or self.throws(t) else (False, True)
        if k == "cond":
            c = self.expr(e.get("c"))
            a, b = self.expr(e.get("a")), self.expr(e.get("b"))
            return c[0] or a[0] and b[0], c[1] or a[1] and b[1]
        if k == "binop" and e.get("op") in ("&&", "||"):
            return self.expr(e.get("l_"))
        r = x = False
        for key, v in e.items():
            if isinstance(v, (dict, list)):
                a, b = self.expr(v)
                r, x = r or a, x or b
        if k in ("call", "construct") and e.get("fn"):
            f = self.P.fn.get(e["fn"])
            if f is not None:
                r = r or self.function(e["fn"])
                x = x or bool(f.get("noreturn"))
        return r, x

    def run(self, s, st, exits, brk, cont):
        """st: possible values of 'raised' before; returns those after falling through"""
        if s is None or not st:
            return st
        if isinstance(s, list):
            for x in s:
                st = self.run(x, st, exits, brk, cont)
            return st
        k = s.get("k")

        def ev(e):
            r, x = self.expr(e)
            out = {True} if r and st else set(st)
            if x:
                exits.extend(out)
                return set()
            return out
        if k == "block":
            return self.run(s["b"], st, exits, brk, cont)
        if k == "expr":
            return ev(s["e"])
        if k == "decl":
            return ev(s.get("vars"))
        if k == "return":
            st = ev(s.get("e"))
            exits.extend(st)
            return set()
        if k == "goto":
            exits.extend(st)
            return set()
        if k == "break":
            (brk if brk is not None else exits).extend(st)
            return set()
        if k == "continue":
            (cont if cont is not None else exits).extend(st)
            return set()
        if k == "if":
            st = ev(s.get("c"))
            c = s.get("c") or {}
            v = c.get("cv", c.get("v") if c.get("k") == "int" else None)
            a = self.run(s.get("a"), set(st), exits, brk, cont) if v is None or int(v) else set()
            b = (self.run(s.get("b"), set(st), exits, brk, cont) if s.get("b") else set(st)) if v is None or not int(v) else set()
            return a | b
        if k in ("while", "for", "rangefor", "do"):
            for key in ("init", "range"):
                if isinstance(s.get(key), dict):
                    st = self.run(s[key], st, exits, brk, cont) if "k" in s[key] and s[key]["k"] in ("decl", "expr", "block") else ev(s[key])
            b2, c2 = [], []
            after = self.run(s.get("b"), set(st), exits, b2, c2)
            after = after | set(c2) | set(b2)
            return after if k == "do" else after | st
        if k == "switch":
            st = ev(s.get("c"))
            b2 = []
            after = self.run(s.get("b"), set(st), exits, b2, cont)
            return after | set(b2) | st
        if k in ("case", "default", "label"):
            return self.run(s.get("s"), st, exits, brk, cont)
        if k == "try":
            a = self.run(s["b"], set(st), exits, brk, cont)
            for h in s["handlers"]:
                a = a | self.run(h["b"], set(st), exits, brk, cont)
            return a
        if k == "null":
            return st
        return ev(s)


def c08(R):
    R.rule("caught", "no C++ exception leaves a function of the glue that is called by the interpreter; every call that "
           "constructs or extracts may throw (also std::bad_alloc)", minimum=8)
    R.rule("converted", "every handler for exceptions of the library raises an exception of the language on every path", minimum=8)
    R.rule("passed-on", "wrapper classes and library pass syntax errors, exhausted budgets and failing regular expressions on", minimum=0)
    R.rule("terminating", "no exception meets a noexcept function and no call ends the process on the way", minimum=4)
    B = Bindings()
    for n in B.notes:
        R.skip("binding", n)
    for lang, P in B.programs.items():
        glue = B.glue[lang]
        E = escape.Escapes(P, memory=lambda f: f["id"] not in glue)
        core = {k for k in E.bodies if k not in glue and P.fn[k]["inrepo"]}
        called = {x[1] for s in E.sum.values() for x in E.flat(s) if x[0] == "call" and x[1] in glue}
        roots = []
        for k in sorted(glue, key=lambda k: P.fn[k]["loc"]):
            if k in called:
                continue
            reach = E.reach([k])
            if any(c in reach for c in core):
                roots.append((k, reach))
        if not roots:
            R.skip(lang, "no function of the glue reaches the library")
            continue
        allreach = {}
        for k, reach in roots:
            f = P.fn[k]
            R.fn(f)
            allreach.update(reach)
            bad = {t: w for t, w in E.esc[k].items() if t not in ALLOWED.get(lang, ())}
            for t, w in sorted(bad.items()):
                line = w[0].split(":")[1] if ":" in w[0] else "?"
                R.violation("caught", B.where(lang, f, line), "%s: %s can reach the interpreter through %s: %s" % (lang, t, P.sq(f), " <- ".join(x.split(":")[-1].split(" ", 1)[-1] for x in reversed(w[1:]))),
                            key="%s:%s:%s" % (lang, P.sq(f), t))
            if not bad:
                R.ok("caught", "%s: %s" % (lang, P.sq(f)))
        Q = Raising(P, RAISE[lang], lambda t: t in ALLOWED.get(lang, ()))
        U = Raising(P, re.compile(r"(?!)"), lambda t: True)
        for k in allreach:
            f = E.bodies.get(k)
            if f is None or not (f.get("inrepo") or k in glue):
                continue
            for n in [f.get("body")] + list(f.get("inits") or []):
                for t in walk(n):
                    if t.get("k") != "try":
                        continue
                    handlers(R, B, lang, P, E, Q if k in glue else U, f, t, k in glue)
        bad = E.terminates(allreach)
        for f, t, w in bad:
            R.violation("terminating", B.where(lang, f, f["loc"].rsplit(":", 2)[1]), "%s: %s meets noexcept %s" % (lang, t, P.sq(f)))
        for k in allreach:
            for name, l in E.ends.get(k, ()):
                R.violation("terminating", B.where(lang, P.fn[k], l.split(":")[0]), "%s: %s ends the interpreter" % (lang, name))
        R.ok("terminating", "%s: %d functions reachable" % (lang, len(allreach)))
    return R.finish("other", "escape fixpoint over the call graph of each binding's glue (generated by SWIG from the current interface files), the wrapper classes and the library; handlers of the glue must raise on every path",
                    ["SWIG's runtime and the interpreters' C APIs throw no C++ exceptions", "node-addon-api converts Napi::Error in its callbacks",
                     "types thrown by library functions without source: hx/escape.py"])


def handlers(R, B, lang, P, E, Q, f, t, inglue):
    body = []
    E.scan(t["b"], body, f)
    thrown = E.items(body, None, f)
    left = dict(thrown)
    for h in t["handlers"]:
        got = {x for x in left if E.catches(h, x) or h.get("t") and x != escape.ANY and E.isa(h["t"], x)}
        for x in list(got):
            if E.catches(h, x):
                del left[x]
        if inglue:
            if not got:
                continue
        else:
            # the library may handle its own errors; what has to arrive is what the property names
            named = {x for x in got if HEXT.match(x) or x == "std::runtime_error" and any("regex" in w for w in thrown[x])}
            wrapper = "/bindings/wrapper/" in f["loc"]
            if not (named or wrapper and got):
                continue
        exits = []
        end = Q.run(h["b"], {False}, exits, None, None)
        line = (h.get("l") or t.get("l") or "0").split(":")[0]
        what = "%s: %s: handler of %s" % (lang, P.sq(f), h.get("t") or "everything")
        rule = "converted" if inglue else "passed-on"
        R.check(rule, all(end | set(exits)) and bool(end or exits), what,
                "%s, %s: a handler of %s ends without raising an exception: %s are lost" % (lang, B.where(lang, f, line), h.get("t") or "everything", ", ".join(sorted(got)[:3])))
