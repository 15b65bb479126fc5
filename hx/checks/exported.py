"""C27: the whole public API is defined in, and visible outside of, the shared library.

The public headers are parsed the way a user's program sees them, the library the way it is compiled (hidden by default);
declarations, definitions, visibility and the layout of classes are compared."""
import concurrent.futures
import os
import re
import shutil
import subprocess
import tempfile

from .. import facts
from ..escape import Escapes
from ..facts import REPO, rel, short, walk
from .cmdline import guarded

INC = "/libhext/include/hext/"


def headers():
    d = REPO + "/libhext/include/hext"
    return sorted(n for n in os.listdir(d) if n.endswith((".h", ".hpp")))


def user(tmp, name, extra):
    """the public headers as a program includes them"""
    src = os.path.join(tmp, name)
    with open(src, "w") as f:
        f.write("".join('#include "hext/%s"\n' % h for h in headers()))
    return facts.Unit(src, facts.BASE + ["-I" + REPO + "/libhext/include"] + extra)


def version(tmp):
    p = REPO + "/libhext/src/Version.cpp.in"
    if not os.path.exists(p):
        return []
    with open(p) as f:
        s = re.sub(r"@\w+@", "1", f.read())
    with open(os.path.join(tmp, "Version.cpp"), "w") as f:
        f.write(s)
    return [facts.Unit(os.path.join(tmp, "Version.cpp"), facts.lib_flags(), roots=[REPO, tmp])]


def public(f):
    """declared in a public header, for users"""
    return INC in (f.get("declloc") or f["loc"]) and f.get("inrepo") is not False and not f.get("lambda")


def key(f):
    return "%s(%s)%s" % (short(f["qn"]), ", ".join(p["t"] for p in f["params"]), " const" if f.get("const") else "")


@guarded
def c27(R):
    R.rule("defined", "every function and constant that a public header declares without defining it is defined in the library, with external linkage", minimum=60)
    R.rule("visible", "these definitions have default visibility, although the library is compiled with hidden visibility", minimum=60)
    R.rule("classes visible", "every class of a public header has default visibility: its type information and virtual functions are exported", minimum=35)
    R.rule("thrown types", "every class thrown by the library and not caught inside has default visibility", minimum=1)
    R.rule("inline code", "inline functions and templates of public headers use nothing that is hidden in the library", minimum=10)
    R.rule("same classes", "programs and the library see the same members, whether or not NDEBUG is defined", minimum=35)
    R.rule("attribute", "HEXT_PUBLIC means default visibility for every compiler in use, and every public header stands for itself", minimum=2)
    tmp = tempfile.mkdtemp(prefix="hxapi.")
    try:
        H = facts.load([user(tmp, "api.cpp", ["-UNDEBUG"])])
        N = facts.load([user(tmp, "apin.cpp", ["-DNDEBUG"])])
        P = facts.load(facts.lib_units() + version(tmp))
        attribute(R, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    hidden_in_lib = set()
    for i, f in sorted(H.fn.items()):
        if not public(f) or f.get("deleted") or f.get("implicit"):
            continue
        if f.get("has_body") or f.get("defaulted") or f.get("template_inst") or f.get("pure") and f.get("kind") != "dtor":
            continue
        if f.get("record") and f["record"] not in H.records:
            continue
        what = "%s %s" % (rel(f.get("declloc") or f["loc"]).rsplit(":", 1)[0], key(f))
        g = P.fn.get(i)
        ok = g is not None and (g.get("has_body") or g.get("defaulted") and not g.get("deleted"))
        own = f.get("access") == "private"
        if ok or not own:
            R.check("defined", ok and (g.get("extlinkage") or own), what, "%s is declared, but no definition of it is in the library" % key(f), key="defined:" + key(f))
        if not ok:
            continue
        R.fn(g)
        if own:
            continue
        R.check("visible", g.get("vis") == "default", what, "%s is declared in a public header but hidden in the shared library (%s)" % (key(f), rel(g["loc"]).rsplit(":", 1)[0]), key="visible:" + key(f))
    for i, v in sorted(H.globals.items()):
        if INC not in v["loc"] or not v.get("extlinkage"):
            continue
        what = "%s %s" % (rel(v["loc"]).rsplit(":", 1)[0], short(v["qn"]))
        if v.get("isdef") and (v.get("constexpr") or v.get("init") is not None) and v.get("const"):
            continue
        g = P.globals.get(i)
        R.check("defined", bool(g) and g.get("isdef") and g.get("extlinkage"), what, "%s is declared, but no definition of it is in the library" % short(v["qn"]), key="defined:" + v["qn"])
        if g:
            R.check("visible", g.get("vis") == "default", what, "%s is declared in a public header but hidden in the shared library" % short(v["qn"]), key="visible:" + v["qn"])
    for n, r in sorted(H.records.items()):
        if INC not in r["loc"] or r.get("lambda") or r.get("local"):
            continue
        g = P.records.get(n)
        what = "%s %s" % (rel(r["loc"]).rsplit(":", 1)[0], short(n))
        if g is None:
            R.skip(what, "not used by the library")
            continue
        needs = r.get("polymorphic") or any(not P.fn[m].get("has_body") or P.fn[m]["loc"].find(INC) < 0 for m in r.get("methods", ()) if m in P.fn and not P.fn[m].get("implicit") and not P.fn[m].get("deleted") and not P.fn[m].get("defaulted"))
        if needs:
            R.check("classes visible", g.get("vis") == "default", what, "%s is a class of the public API, but hidden in the shared library (type information and virtual functions are not exported)" % short(n), key="class:" + short(n))
        same(R, what, short(n), r, N.records.get(n), g, (H, N, P))
    thrown(R, P, H)
    inline(R, P, H)
    return R.finish("other", "the public headers parsed as a program sees them (with and without NDEBUG), the library parsed with -fvisibility=hidden: %d functions, %d classes compared" % (len(H.fn), len(H.records)),
                    ["clang computes linkage and visibility as the compiler that builds the library does", "symbols are not removed by linker scripts or strip"])


def shape(P, r):
    fs = [(x["name"], x["t"]) for x in r.get("fields", ())]
    ms = [(short(P.fn[m]["qn"]), tuple(p["t"] for p in P.fn[m]["params"]), P.fn[m].get("const"), P.fn[m].get("pure")) for m in r.get("methods", ()) if m in P.fn and P.fn[m].get("virtual") and not P.fn[m].get("implicit")]
    return fs, list(r.get("bases", ())), ms


def same(R, what, n, h, nd, g, programs):
    a = shape(programs[0], h)
    for other, P, msg in ((nd, programs[1], "programs compiled with NDEBUG see"), (g, programs[2], "the library sees")):
        b = shape(P, other) if other else None
        diff = ""
        if b is not None:
            for x, y, k in zip(a, b, ("members", "bases", "virtual functions")):
                if x != y:
                    odd = [t for t in x + y if (t in x) != (t in y)]
                    diff = "%s other %s of %s%s" % (msg, k, n, ": %s" % (odd[0][0] if isinstance(odd[0], tuple) else odd[0]) if odd else "")
                    break
        R.check("same classes", b is None or a == b, what, diff, key="same:%s" % n)


def thrown(R, P, H):
    E = Escapes(P)
    seen = set()
    for i, f in P.fn.items():
        if not (public(f) and f.get("vis") == "default" and i in H.fn):
            continue
        for t in E.esc.get(i, ()):
            t = re.sub(r"^const ", "", t)
            r = P.records.get(t)
            if r is None or not r.get("inrepo") or t in seen:
                continue
            seen.add(t)
            R.check("thrown types", r.get("vis") == "default" and not r.get("local"), short(t), "%s leaves the library (through %s), but its type information is hidden: programs cannot catch it" % (short(t), short(f["qn"])), key="thrown:" + short(t))


def inline(R, P, H):
    """what inline code of the headers refers to"""
    for Q in (H, P):
        for i, f in sorted(Q.fn.items()):
            if not (f.get("has_body") and INC in f["loc"]) or f.get("lambda"):
                continue
            ok = True
            for n in [*walk(f.get("body")), *walk(f.get("inits"))]:
                g = P.fn.get(n.get("fn")) or Q.fn.get(n.get("fn")) if n.get("k") in ("call", "construct", "fn") else None
                bad = None
                if g is not None and "/libhext/" in g["loc"] and not g.get("implicit") and not g.get("defaulted") and not g.get("pure"):
                    here = g.get("has_body") and INC in g["loc"]
                    if not here and g.get("vis") != "default":
                        bad = short(g["qn"])
                v = P.globals.get(n.get("id")) if n.get("k") == "var" else None
                if v is not None and v.get("inrepo") and v.get("vis") != "default" and INC not in v["loc"]:
                    bad = short(v["qn"])
                if bad:
                    ok = False
                    R.violation("inline code", "%s uses %s" % (short(f["qn"]), bad), "%s is compiled into programs, but uses %s, which is hidden in the library" % (short(f["qn"]), bad), key="inline:%s:%s" % (short(f["qn"]), bad))
            if ok:
                R.ok("inline code", "%s %s" % (rel(f["loc"]).rsplit(":", 1)[0], key(f)))


def attribute(R, tmp):
    src = os.path.join(tmp, "vis.cpp")
    with open(src, "w") as f:
        f.write('#include "hext/Hext.h"\nPROBE HEXT_PUBLIC\n')
    for cc in ("g++", "clang++"):
        if not shutil.which(cc):
            continue
        r = subprocess.run([cc, "-E", "-P", "-std=c++17", "-I" + REPO + "/libhext/include", src], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        m = re.search(r"PROBE(.*)", r.stdout)
        R.check("attribute", not m or bool(re.search(r"visibility\s*\(\s*\"default\"\s*\)|\[\[gnu::visibility\s*\(\"default\"\)\]\]", m.group(1))), "HEXT_PUBLIC for %s" % cc, "HEXT_PUBLIC does not make anything visible when %s compiles the library" % cc, key="attribute:" + cc)

    def alone(h):
        p = os.path.join(tmp, "alone_%s.cpp" % h)
        with open(p, "w") as f:
            f.write('#include "hext/%s"\n' % h)
        return h, subprocess.run(["clang++", "-fsyntax-only", "-w", "-std=c++17", "-I" + REPO + "/libhext/include", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for h, r in ex.map(alone, headers()):
            m = re.search(r"^(/\S+?:\d+):\d+: (?:fatal )?error: (.*)$", r.stdout, re.M)
            R.check("attribute", r.returncode == 0 or not m, "hext/%s" % h, "including only hext/%s does not compile: %s: %s" % (h, rel(m.group(1) + ":0").rsplit(":", 1)[0] if m else "", m.group(2) if m else ""), key="alone:" + h)
