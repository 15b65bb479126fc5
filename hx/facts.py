"""Runs the extractor over translation units of /repo and merges the facts."""
import concurrent.futures
import glob
import json
import os
import re
import subprocess
import sys
import tempfile
import shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HX_REPO", "/repo")
TOOL = os.path.join(VERIF, "build", "hxfacts")
RES = "/usr/lib/llvm-18/lib/clang/18"


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (anchor vanished, unknown construct)."""


def ensure_tool():
    r = subprocess.run([os.path.join(VERIF, "setup.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(TOOL):
        raise AnalysisBroken("cannot build the extractor:\n" + r.stdout)


def lib_sources():
    return sorted(glob.glob(REPO + "/libhext/src/*.cpp"))


def cli_sources():
    return [REPO + "/htmlext/main.cpp"] + sorted(glob.glob(REPO + "/htmlext/htmlext/*.cpp"))


BASE = ["-x", "c++", "-std=c++17", "-DNDEBUG", "-resource-dir", RES, "-w", "-ferror-limit=20"]


def lib_flags():
    return BASE + ["-fvisibility=hidden", "-I" + REPO + "/libhext/include", "-I" + REPO + "/libhext/src"]


def cli_flags():
    return BASE + ["-I" + REPO + "/libhext/include", "-I" + REPO + "/htmlext"]


class Unit:
    def __init__(self, src, flags, roots=None):
        self.src, self.flags, self.roots = src, flags, roots or [REPO]


def _run(unit, out):
    cmd = [TOOL, "--out=" + out] + ["--root=" + r for r in unit.roots] + [unit.src, "--"] + unit.flags
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise AnalysisBroken("cannot parse %s:\n%s" % (unit.src, p.stdout[-3000:]))
    with open(out) as f:
        return json.load(f)


_STRIP = re.compile(r"std::__cxx11::|std::_V2::|boost::re_detail_\d+::")


def short(qn):
    """Qualified name without template arguments and inline namespaces."""
    qn = qn.replace("__cxx11::", "").replace("_V2::", "").replace("__gnu_cxx::__normal_iterator", "__normal_iterator")
    out, depth, i = [], 0, 0
    n = len(qn)
    while i < n:
        c = qn[i]
        if c == "<" or c == ">":
            # operators containing < or >
            m = re.search(r"operator$", "".join(out)) if depth == 0 else None
            if m:
                rest = qn[i:]
                op = re.match(r"(<<=|>>=|<=>|<<|>>|<=|>=|<|>)", rest).group(1)
                out.append(op)
                i += len(op)
                continue
            if c == "<":
                depth += 1
            elif not (i > 0 and qn[i - 1] == "-"):
                depth -= 1
            elif depth == 0:
                out.append(c)
            i += 1
            continue
        if depth == 0:
            out.append(c)
        i += 1
    return "".join(out)


class Program:
    def __init__(self):
        self.fn = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.tus = []
        self.files = set()
        self._byqn = None
        self._short = {}

    def add(self, d):
        self.tus.append(d["tu"])
        self.files.update(d["files"])
        for k, v in d["functions"].items():
            old = self.fn.get(k)
            if old is None or (v.get("has_body") and not old.get("has_body")):
                if old is not None:
                    v["reach"] = sorted(set(v.get("reach", [])) | set(old.get("reach", [])))
                v["id"] = k
                v["tu"] = d["tu"]
                self.fn[k] = v
            else:
                if "reach" in v:
                    old["reach"] = sorted(set(v["reach"]) | set(old.get("reach", [])))
        for name in ("records", "enums"):
            tgt = getattr(self, name)
            for k, v in d[name].items():
                old = tgt.get(k)
                if old is None or (name == "records" and len(v.get("fields", [])) > len(old.get("fields", []))):
                    tgt[k] = v
        for k, v in d["globals"].items():
            old = self.globals.get(k)
            if old is None or (v.get("init") is not None and old.get("init") is None) or (v.get("isdef") and not old.get("isdef")):
                self.globals[k] = v
        self._byqn = None

    def sq(self, f):
        """short qualified name of a function record or id"""
        if isinstance(f, str):
            f = self.fn[f]
        q = f["qn"]
        s = self._short.get(q)
        if s is None:
            s = self._short[q] = short(q)
        return s

    def byqn(self, qn):
        if self._byqn is None:
            self._byqn = {}
            for f in self.fn.values():
                self._byqn.setdefault(self.sq(f), []).append(f)
        return self._byqn.get(qn, [])

    def one(self, qn, pred=None):
        fs = [f for f in self.byqn(qn) if (pred is None or pred(f))]
        if len(fs) != 1:
            raise AnalysisBroken("expected exactly one function %s, found %d" % (qn, len(fs)))
        return fs[0]

    def repo_functions(self):
        return [f for f in self.fn.values() if f["inrepo"]]

    def overriders(self, fid):
        """all functions that (transitively) override fid"""
        if not hasattr(self, "_ovr"):
            self._ovr = {}
            for k, f in self.fn.items():
                for b in f.get("overrides", []):
                    self._ovr.setdefault(b, set()).add(k)
        out, st = set(), [fid]
        while st:
            x = st.pop()
            for y in self._ovr.get(x, ()):
                if y not in out:
                    out.add(y)
                    st.append(y)
        return out

    def derived(self, name):
        out, st = set(), [name]
        while st:
            x = st.pop()
            for n, r in self.records.items():
                if x in r.get("bases", []) and n not in out:
                    out.add(n)
                    st.append(n)
        return out


def load(units, jobs=8):
    ensure_tool()
    prog = Program()
    tmp = tempfile.mkdtemp(prefix="hxfacts.")
    try:
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            futs = [ex.submit(_run, u, os.path.join(tmp, "%d.json" % i)) for i, u in enumerate(units)]
            for f in futs:
                prog.add(f.result())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return prog


def lib_units(only=None):
    return [Unit(s, lib_flags()) for s in lib_sources() if only is None or os.path.basename(s) in only]


def cli_units():
    return [Unit(s, cli_flags()) for s in cli_sources()]


def walk(node):
    """all dict nodes of a serialized tree, preorder"""
    st = [node]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x or "init" in x or "b" in x:
                yield x
            for v in reversed(list(x.values())):
                if isinstance(v, (dict, list)):
                    st.append(v)
        elif isinstance(x, list):
            st.extend(reversed(x))


def rel(path):
    return os.path.relpath(path.split(":")[0], REPO) + ":" + ":".join(path.split(":")[1:]) if path.startswith("/") else path
