"""C09 node kinds, C10 absent values, C11 bounds: obligations of the interpreter."""
from .. import facts, oblig
from ..dom import show
from ..facts import rel, short

TRUST = [
    "Gumbo: entries of children/attributes lists and text of text nodes are never null; a node with a parent is one of "
    "its parent's children; lists have fewer than 2^31 entries",
    "C strings passed to exported functions are not null (except ValueTest::test's subject); this and references are valid",
    "objects and texts are smaller than 2^47 / 2^31 bytes",
    "models of the C++ standard library in hx/models.py",
]


def program():
    return facts.load(facts.lib_units() + facts.cli_units())


def collect(R, rules):
    P = program()
    A = oblig.Obligations(P)
    by = {k: r for r, ks in rules.items() for k in ks}
    for fid in A.analysed:
        R.fn(P.fn[fid])
    for fid, why in A.broken.items():
        R.skip(P.fn[fid]["qn"], why)
    for r in A.results.values():
        if r["kind"] not in by:
            continue
        f = r["fn"]
        file = f["loc"].rsplit(":", 2)[0]
        where = "%s:%s %s" % (rel(file + ":0:0").split(":")[0], r["line"], short(f["qn"]))
        d = r["detail"]
        d = show(d) if isinstance(d, tuple) and d and isinstance(d[0], str) else str(d)
        what = "%s (%s in %s)" % (where, d[:120], ", ".join(sorted(short(x) for x in r["roots"])[:3]))
        if r["ok"]:
            R.ok(by[r["kind"]], what)
        else:
            R.violation(by[r["kind"]], where, "%s: not shown for %s; reached via %s" % (TEXT[r["kind"]], d[:200], " <- ".join(short(x) for x in r.get("via", [])[:6])),
                        key="%s:%s" % (r["kind"], short(f["qn"])))
    R.notes["preconditions_of_internal_functions"] = sorted(
        "%s: parameter %d may be null" % (P.fn[k[0]]["qn"], k[1]) for k, v in A.pre.items() if not v)
    R.notes["field_invariants_verified"] = sorted("%s.%s is never null" % (short(k[0]) if "pair" not in k[0] else k[0], k[1]) for k, v in A.fields.items() if v)
    return P, A


TEXT = {
    "kind": "read as this kind of node without a test of its type on this path",
    "deref": "pointer may be null here",
    "optional": "std::optional may be empty here",
    "function": "std::function may be empty here",
    "bounds": "index may be out of bounds here",
    "uwrap": "unsigned arithmetic may wrap around here and the result is used",
    "sovf": "signed arithmetic may overflow here",
    "div": "division by zero possible here",
    "divovf": "quotient may overflow here",
    "narrow": "conversion may change the value here",
}


def c09(R):
    R.rule("node kind", "v.element / v.text / v.document of a GumboNode is only accessed on paths on which its type was compared with a matching kind", 20)
    collect(R, {"node kind": ["kind"]})
    return R.finish("other", "Path-sensitive abstract interpretation of every function of libhext/src and htmlext; every access to the "
                    "union GumboNode::v is an obligation, discharged when the set of possible node types on the path is contained in the kinds that have this member.", TRUST)


def c10(R):
    R.rule("non-null", "every dereferenced pointer (also smart pointers, C strings handed to library functions) is known to be non-null on the path", 300)
    R.rule("engaged optional", "std::optional is only dereferenced on paths on which it has a value", 4)
    R.rule("callable function", "std::function is only called on paths on which it is not empty", 1)
    collect(R, {"non-null": ["deref"], "engaged optional": ["optional"], "callable function": ["function"]})
    return R.finish("other", "Path-sensitive abstract interpretation (nullness domain, intervals and linear relations) of every function of "
                    "libhext/src and htmlext; each dereference is an obligation.  Preconditions of internal functions and invariants of "
                    "fields are verified at all call sites and constructors.", TRUST)


def c11(R):
    R.rule("bounds", "index of arrays, strings, vectors and Gumbo lists is below the length on the path; back/front/pop_back only on non-empty containers", 25)
    R.rule("no wrap-around", "unsigned subtractions and additions whose result is used do not wrap around", 10)
    collect(R, {"bounds": ["bounds"], "no wrap-around": ["uwrap"]})
    return R.finish("other", "Path-sensitive abstract interpretation with intervals, linear relations and inductive loop invariants; each index "
                    "expression, back()/front()/pop_back() and unsigned arithmetic is an obligation.", TRUST)
