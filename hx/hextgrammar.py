"""The documented syntax of hext as a nondeterministic transducer, written from the documentation.

A thread is (node, env, marks): env holds what the constructs read so far mean, marks say which regions of
the input begin and end before the next character.  Outputs are the effects a script must have on the rules."""

ALPHA = frozenset(range(65, 91)) | frozenset(range(97, 123))
DIGIT = frozenset(range(48, 58))
ALNUM = ALPHA | DIGIT
SPACE = frozenset((9, 10, 11, 12, 13, 32))
ANY = frozenset(range(-128, 128))


def ch(s):
    return frozenset(ord(c) for c in s)


class G:
    """builds the machine; nodes are integers"""

    def __init__(self, consts):
        self.c = consts
        self.chars = {}      # node -> [(set, node)]
        self.eps = {}        # node -> [(action|None, node)]
        self.n = 0
        self.final = None
        self.numeric = set()
        self.start = self.build()

    def node(self):
        self.n += 1
        return self.n

    def e(self, a, b, act=None):
        self.eps.setdefault(a, []).append((act, b))

    # combinators: (from) -> to
    def set(self, s):
        def m(a):
            b = self.node()
            self.chars.setdefault(a, []).append((s, b))
            return b
        return m

    def lit(self, text):
        return self.seq(*[self.set(ch(c)) for c in text]) if text else self.nothing()

    def nothing(self):
        return lambda a: a

    def seq(self, *ms):
        def m(a):
            for x in ms:
                a = x(a)
            return a
        return m

    def alt(self, *ms):
        def m(a):
            end = self.node()
            for x in ms:
                s = self.node()
                self.e(a, s)
                self.e(x(s), end)
            return end
        return m

    def star(self, x):
        def m(a):
            hub = self.node()
            self.e(a, hub)
            self.e(x(hub), hub)
            out = self.node()
            self.e(hub, out)
            return out
        return m

    def plus(self, x):
        return self.seq(x, self.star(x))

    def opt(self, x):
        return self.alt(x, self.nothing())

    def act(self, f):
        def m(a):
            b = self.node()
            self.e(a, b, f)
            return b
        return m

    def mark(self, *m):
        return self.act(("mark", m))

    def region(self, label, x):
        return self.seq(self.mark("s", label), x, self.mark("e", label))

    def set_env(self, f):
        """f(env) -> changes"""
        return self.act(("env", f))

    def out(self, f):
        """f(env) -> output or None"""
        return self.act(("out", f))

    def fresh(self):
        return self.mark("fresh", "")

    # ------------------------------------------------------------ the syntax
    def text(self, quote):
        """any text up to the quote; a backslash before a quote keeps it from ending the text"""
        q, b = ch(quote), ch("\\")

        def m(a):
            normal, esc, end = self.node(), self.node(), self.node()
            self.e(a, normal)
            self.chars.setdefault(normal, []).append((ANY - q - b, normal))
            self.chars.setdefault(normal, []).append((b, esc))
            self.chars.setdefault(esc, []).append((ANY - b, normal))
            self.chars.setdefault(esc, []).append((b, esc))
            self.e(normal, end)
            return end
        return m

    def quoted(self, label, quotes="\"'", key="lit"):
        alts = []
        for q in quotes:
            alts.append(self.seq(self.lit(q), self.region(label, self.text(q)), self.lit(q)))
        return self.seq(self.alt(*alts), self.set_env(lambda env: {key: ("tok", label)}))

    def regex(self, label):
        icase, collate, perl = self.c["icase"], self.c["collate"], self.c["perl"]
        return self.seq(
            self.set_env(lambda env: {"flags": perl}),
            self.quoted(label, "/\"'", "rxtext"),
            self.star(self.alt(self.seq(self.lit("i"), self.set_env(lambda env: {"flags": env["flags"] | icase})),
                               self.seq(self.lit("c"), self.set_env(lambda env: {"flags": env["flags"] | collate})))),
            self.set_env(lambda env: {"rx": ("regex", env["rxtext"], env["flags"]), "flags": None, "rxtext": None}))

    def number(self, label, sign=""):
        self.numeric.add(label)
        d = self.plus(self.set(DIGIT))
        if sign == "-?":
            d = self.seq(self.opt(self.lit("-")), d)
        elif sign == "[+-]":
            d = self.seq(self.set(ch("+-")), d)
        return self.region(label, d)

    def nth(self):
        return self.alt(
            self.seq(self.lit("even"), self.set_env(lambda v: {"nth": (2, 0)})),
            self.seq(self.lit("odd"), self.set_env(lambda v: {"nth": (2, 1)})),
            self.seq(self.number("nth-number", "-?"), self.set_env(lambda v: {"nth": (0, ("int", ("tok", "nth-number")))}),
                     self.opt(self.seq(
                         self.lit("n"), self.set_env(lambda v: {"nth": (v["nth"][1], 0)}),
                         self.opt(self.seq(self.number("nth-shift", "[+-]"),
                                           self.set_env(lambda v: {"nth": (v["nth"][0], ("int", ("tok", "nth-shift")))})))))))

    def trait(self, done):
        first, last, of = self.c["First"], self.c["Last"], self.c["OfType"]
        anyt, oonly = self.c["OnlyAny"], self.c["OnlyOfType"]

        def obj(t, *args):
            return self.set_env(lambda v: {"trait": ("obj", t) + tuple(a(v) if callable(a) else a for a in args)})
        num = lambda l: (lambda v: ("int", ("tok", l)))
        alts = [
            self.seq(self.lit("empty"), obj("ChildCountMatch", 0)),
            self.seq(self.lit("child-count("), self.number("child-count"), self.lit(")"), obj("ChildCountMatch", num("child-count"))),
            self.seq(self.lit("attribute-count("), self.number("attribute-count"), self.lit(")"), obj("AttributeCountMatch", num("attribute-count"))),
            self.seq(self.lit("only-child"), obj("OnlyChildMatch", anyt)),
            self.seq(self.lit("only-of-type"), obj("OnlyChildMatch", oonly)),
            self.seq(self.lit("type-matches("), self.regex("type-regex"), self.lit(")"), obj("TypeRegexMatch", lambda v: v["rx"])),
        ]
        for name, opts in (("nth-child(", first), ("nth-last-child(", last), ("nth-of-type(", first | of), ("nth-last-of-type(", last | of)):
            alts.append(self.seq(self.lit(name), self.nth(), self.lit(")"),
                                 obj("NthChildMatch", lambda v: v["nth"][0], lambda v: v["nth"][1], opts)))
        for name, opts in (("first-child", first), ("last-child", last), ("first-of-type", first | of), ("last-of-type", last | of)):
            alts.append(self.seq(self.lit(name), obj("NthChildMatch", 0, 1, opts)))
        return self.seq(self.lit(":"), self.fresh(), self.alt(*alts), done, self.set_env(lambda v: {"trait": None, "nth": None, "rx": None}))

    def pipe(self):
        def p(t, *args):
            return self.set_env(lambda v: {"pipes": v.get("pipes", ()) + (("obj", t) + tuple(a(v) if callable(a) else a for a in args),), "lit": None, "rx": None})
        lit = lambda v: v["lit"]
        lower, upper = self.c["ToLower"], self.c["ToUpper"]
        return self.seq(self.lit(":"), self.mark("next", ""), self.alt(
            self.seq(self.lit("trim"), p("TrimPipe", *self.c["trim_default"])),
            self.seq(self.lit("trim("), self.quoted("trim-chars"), self.lit(")"), p("TrimPipe", lit)),
            self.seq(self.lit("collapsews"), p("CollapseWsPipe")),
            self.seq(self.lit("tolower"), p("CasePipe", lower)),
            self.seq(self.lit("toupper"), p("CasePipe", upper)),
            self.seq(self.lit("prepend("), self.quoted("prepend-text"), self.lit(")"), p("PrependPipe", lit)),
            self.seq(self.lit("append("), self.quoted("append-text"), self.lit(")"), p("AppendPipe", lit)),
            self.seq(self.lit("filter("), self.regex("filter-regex"), self.lit(")"), p("RegexPipe", lambda v: v["rx"])),
            self.seq(self.lit("replace("), self.regex("replace-regex"), self.star(self.set(SPACE)), self.lit(","), self.star(self.set(SPACE)),
                     self.quoted("replacement"), self.lit(")"), p("RegexReplacePipe", lambda v: v["rx"], lit))))

    def capture(self):
        name = self.set(ALNUM | ch("-_."))
        return self.seq(
            self.star(self.pipe()), self.lit(":"),
            self.alt(self.seq(self.quoted("capture-name-quoted"), self.set_env(lambda v: {"var": v["lit"], "lit": None})),
                     self.seq(self.region("capture-name", self.plus(name)), self.set_env(lambda v: {"var": ("tok", "capture-name")}))))

    def match_arg(self):
        def t(op, cls):
            return self.seq(self.lit(op), self.quoted("value" + op), self.set_env(lambda v: {"test": ("obj", cls, v["lit"]), "lit": None}))
        return self.alt(t("=", "ContainsWordsTest"), t("==", "EqualsTest"), t("^=", "BeginsWithTest"), t("*=", "ContainsTest"), t("$=", "EndsWithTest"),
                        self.seq(self.lit("=~"), self.regex("value-regex"), self.set_env(lambda v: {"test": ("obj", "RegexTest", v["rx"]), "rx": None})))

    def pattern(self):
        neg = self.opt(self.seq(self.lit("!"), self.set_env(lambda v: {"test": ("obj", "NegateTest", v.get("test", NULL))})))
        builtins = self.seq(self.lit("@"), self.alt(*[
            self.seq(self.lit(n), self.set_env(lambda v, g=g: {"what": ("global", g)}))
            for n, g in (("text", "hext::TextBuiltin"), ("inner-html", "hext::InnerHtmlBuiltin"), ("strip-tags", "hext::StripTagsBuiltin"))]))
        attr = self.seq(self.region("attribute-name", self.seq(self.set(ALPHA), self.star(self.set(ALNUM | ch("-_"))))),
                        self.set_env(lambda v: {"what": ("tok", "attribute-name")}))
        done = self.set_env(lambda v: {"what": None, "test": None, "var": None, "pipes": None, "optional": None})

        def cap(cls):
            return self.out(lambda v: ("capture", ("obj", cls, v["what"], v["var"], v.get("pipes", ()))))

        def mat(cls):
            return self.out(lambda v: ("match", ("obj", cls, v["what"], v.get("test", NULL))))
        return self.seq(self.plus(self.set(SPACE)), self.fresh(), self.alt(
            self.seq(builtins, self.capture(), cap("FunctionCapture"), done),
            self.seq(builtins, self.match_arg(), neg, mat("FunctionValueMatch"), done),
            self.seq(attr, self.capture(), self.alt(
                self.seq(self.lit("?"), cap("AttributeCapture")),
                self.seq(cap("AttributeCapture"), mat("AttributeMatch"))), done),
            self.seq(attr, self.match_arg(), neg, mat("AttributeMatch"), done),
            self.seq(attr, neg, mat("AttributeMatch"), done)))

    def build(self):
        tagname = lambda: self.alt(self.lit("*"), self.seq(self.set(ALPHA), self.star(self.set(ALNUM | ch("-_")))))
        const = lambda *x: self.out(lambda v: x)
        trait = self.trait(self.out(lambda v: ("match", v["trait"])))
        negtrait = self.trait(self.set_env(lambda v: {"negs": v.get("negs", ()) + (v["trait"],)}))
        not_trait = self.seq(self.lit(":not("), self.set_env(lambda v: {"negs": ()}), self.plus(negtrait), self.lit(")"),
                             self.out(lambda v: ("match", ("obj", "NegateMatch", v["negs"]))), self.set_env(lambda v: {"negs": None}))
        opening = self.seq(
            self.lit("<"), const("open"), self.star(self.alt(self.seq(self.lit("?"), const("optional")), self.seq(self.lit("+"), const("greedy")))),
            self.region("tag-name", tagname()), const("tag", ("tok", "tag-name")),
            self.star(self.alt(not_trait, trait)), self.star(self.pattern()), self.star(self.set(SPACE)),
            self.alt(self.seq(self.lit("/>"), const("pop")), self.lit(">")))
        closing = self.seq(self.lit("</"), self.region("closing-tag-name", tagname()), const("close", ("tok", "closing-tag-name")), const("pop"), self.lit(">"))
        main = self.star(self.seq(self.fresh(), self.alt(
            self.set(SPACE),
            self.seq(self.lit("#"), self.star(self.set(ANY - ch("\n"))), self.lit("\n")),
            self.seq(self.lit("{"), const("nest")),
            self.seq(self.lit("}"), const("unnest")),
            opening, closing)))
        s = self.node()
        self.final = main(s)
        return s

    # ------------------------------------------------------------ simulation
    def closure(self, threads):
        """threads (node, env, marks, out) after following everything that needs no character"""
        seen, out, todo = set(), [], list(threads)
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            node, env, marks, o = t
            if node in self.chars or node == self.final:
                out.append(t)
            for act, b in self.eps.get(node, ()):
                env2, marks2, o2 = env, marks, o
                if act is not None:
                    kind, f = act
                    if kind == "mark":
                        marks2 = marks | {f}
                    elif kind == "env":
                        d = dict(env)
                        for k, v in f(d).items():
                            if v is None:
                                d.pop(k, None)
                            else:
                                d[k] = v
                        env2 = tuple(sorted(d.items(), key=lambda x: x[0]))
                    else:
                        o2 = o + (f(dict(env)),)
                todo.append((b, env2, marks2, o2))
        return frozenset(out)

    def initial(self):
        return self.closure([(self.start, (), frozenset(), ())])

    def step(self, threads, c):
        """(threads before the character's closure, marks of the threads that take the character)"""
        nxt, marks = set(), set()
        for node, env, m, o in threads:
            for s, b in self.chars.get(node, ()):
                if c in s:
                    nxt.add((b, env, frozenset(), o))
                    marks |= m
        return nxt, marks

    def settle(self, threads):
        """output all threads agree on, threads without it"""
        outs = [t[3] for t in threads]
        if not outs:
            return (), threads
        n = min(len(o) for o in outs)
        k = 0
        while k < n and all(o[k] == outs[0][k] for o in outs):
            k += 1
        if not k:
            return (), threads
        return outs[0][:k], frozenset((a, b, c, o[k:]) for a, b, c, o in threads)

    def classes(self):
        """sets of characters the machine tells apart"""
        return {s for l in self.chars.values() for s, _ in l}


NULL = ("null",)
