"""The command line tool as a program: its sources and the generated Version.cpp, with the library."""
import os
import re
import shutil
import tempfile

from . import facts
from .facts import REPO, Unit


def program(lib=True):
    d = tempfile.mkdtemp(prefix="hxcli.")
    try:
        extra = []
        h = os.path.join(REPO, "htmlext", "htmlext")
        for n in sorted(os.listdir(h)):
            if n.endswith(".cpp.in"):
                t = open(os.path.join(h, n)).read()
                p = os.path.join(d, n[:-3])
                with open(p, "w") as f:
                    f.write(re.sub(r"@[A-Z_]+@", "1", t))
                extra.append(Unit(p, facts.cli_flags(), [REPO, d]))
        return facts.load((facts.lib_units() if lib else []) + facts.cli_units() + extra)
    finally:
        shutil.rmtree(d, ignore_errors=True)
