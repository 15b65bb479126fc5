"""The language bindings: SWIG's generated glue for Python, Ruby and PHP, and the Node.js sources."""
import concurrent.futures
import glob
import json
import os
import re
import shutil
import subprocess
import tempfile

from . import facts
from .facts import REPO, RES, AnalysisBroken, Program, Unit

B = REPO + "/libhext/bindings"
SWIG = {"python": ("python/pyhext.i", "-python"), "ruby": ("ruby/rbhext.i", "-ruby"), "php": ("php/phphext.i", "-php")}
NAPI = "/opt/veriftools/node/node_modules/node-addon-api"


def out(*cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise AnalysisBroken("%s: %s" % (cmd[0], r.stderr[-300:]))
    return r.stdout.split()


def includes(lang):
    if lang == "python":
        return out("python3-config", "--includes")
    if lang == "php":
        return out("php-config", "--includes")
    return ["-I" + d for d in out("ruby", "-rrbconfig", "-e", 'puts RbConfig::CONFIG["rubyhdrdir"],RbConfig::CONFIG["rubyarchhdrdir"]')]


def common():
    return ["-x", "c++", "-std=c++17", "-DNDEBUG", "-resource-dir", RES, "-w", "-ferror-limit=20", "-I" + REPO + "/libhext/include", "-I" + B]


def node_include():
    if os.path.isdir(NAPI):
        return NAPI
    r = subprocess.run(["find", "/opt", "/usr/lib/node_modules", "/usr/share", "-name", "napi.h", "-not", "-path", "*/node_modules/*/node_modules/*"],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.split()
    return os.path.dirname(r[0]) if r else None


class Bindings:
    """programs: language -> Program (glue + wrapper classes + library); glue: language -> ids of the glue's functions"""

    def __init__(self, langs=("python", "ruby", "php", "node"), lib=True):
        self.notes = []
        self.programs, self.glue, self.source = {}, {}, {}
        self.dir = tempfile.mkdtemp(prefix="hxglue.")
        try:
            self.load(langs, lib)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def load(self, langs, lib):
        facts.ensure_tool()
        units = {}
        for lang in langs:
            if lang == "node":
                inc = node_include()
                if inc is None or not os.path.isdir("/usr/include/node"):
                    self.notes.append("node: no headers of Node.js or node-addon-api")
                    continue
                fl = common() + ["-I" + B + "/nodejs/src", "-isystem", inc, "-isystem", "/usr/include/node", "-DNAPI_VERSION=8"]
                units[lang] = [Unit(s, fl) for s in sorted(glob.glob(B + "/nodejs/src/*.cpp"))]
                continue
            i, opt = SWIG[lang]
            d = os.path.join(self.dir, lang)
            os.mkdir(d)
            cpp = os.path.join(d, "%s_wrap.cpp" % os.path.basename(i).replace(".", "_"))
            r = subprocess.run(["swig", "-c++", opt, "-I" + B, "-outdir", d, "-o", cpp, os.path.join(B, i)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise AnalysisBroken("swig %s: %s" % (i, r.stdout[-500:]))
            self.source[lang] = (open(cpp).read().split("\n"), open(os.path.join(B, i)).read().split("\n"), i)
            units[lang] = [Unit(cpp, common() + ["-I" + d] + includes(lang), [REPO, d])]
        wrap = [Unit(s, common()) for s in sorted(glob.glob(B + "/wrapper/*.cpp"))]
        libs = facts.lib_units() if lib else []
        jobs = {}
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            def start(us, tag):
                for n, u in enumerate(us):
                    o = os.path.join(self.dir, "%s%d.json" % (tag, n))
                    jobs.setdefault(tag, []).append((o, ex.submit(facts._run, u, o)))
            for lang in units:
                start(units[lang], lang)
            start(libs, "lib")
            start(wrap, "wrap")
            for js in jobs.values():
                for _, f in js:
                    f.result()

        def text(tag):
            return [open(o).read() for o, _ in jobs.get(tag, ())]
        lib_text, wrap_text = text("lib"), text("wrap")
        for lang in units:
            P = Program()
            for t in text(lang):
                P.add(json.loads(t))
            for t in (wrap_text if lang != "node" else []) + lib_text:
                P.add(json.loads(t))
            self.programs[lang] = P
            home = self.dir if lang != "node" else B + "/nodejs/"
            self.glue[lang] = {k for k, f in P.fn.items() if f["loc"].startswith(home) and f.get("has_body")}

    def where(self, lang, f, line):
        """place in the sources of the repository"""
        if lang not in self.source or not f["loc"].startswith(self.dir):
            return "%s:%s %s" % (facts.rel(f["loc"].rsplit(":", 2)[0] + ":0:0").split(":")[0], line, facts.short(f["qn"]))
        gen, src, name = self.source[lang]
        try:
            t = gen[int(line) - 1].strip()
        except (ValueError, IndexError, TypeError):
            t = ""
        for n, s in enumerate(src):
            if t and len(t) > 6 and (s.strip() == t or s.strip().replace("$result", "resultobj") == t or s.strip().replace("$1", "result") == t):
                return "libhext/bindings/%s:%d (%s)" % (name, n + 1, f["name"] if "name" in f else facts.short(f["qn"]))
        return "libhext/bindings/%s (%s, generated line %s: %s)" % (name, facts.short(f["qn"]), line, t[:80])
