#!/usr/bin/env python3
"""Creates and validates planted bugs: seed.py FILE [id...].

FILE defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=text, files={name: text})].
The tree in $HX_SCRATCH (a copy of /repo with its own build) is patched, built, tested; demo runs before and after."""
import json
import os
import subprocess
import sys

R = os.environ.get("HX_SCRATCH", "/tmp/w/r")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD, TEST = "/tmp/w/build_r.sh", "/tmp/w/test_r.sh"


def sync():
    subprocess.run(["rsync", "-rlpc", "--delete", "--exclude", "_build", "/repo/", R + "/"], check=True)


def demo(d):
    return subprocess.run(["bash", d + "/demo.sh"], cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for s in ns["SEEDS"]:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
            continue
        sync()
        d = os.path.join(HERE, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        for n, t in dict(s.get("files", {}), **{"demo.sh": s["demo"]}).items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, f, indent=1)
            f.write("\n")
        bad = None
        for file, old, new in s["edits"]:
            p = os.path.join(R, file)
            t = open(p).read()
            if t.count(old) < 1:
                bad = "pattern missing: " + old[:60]
                break
            open(p, "w").write(t.replace(old, new, 1))
        if bad:
            print(s["id"], "BAD", bad)
            continue
        diff = subprocess.run(["git", "-C", R, "diff"], stdout=subprocess.PIPE).stdout
        sync()
        r = subprocess.run(["bash", BUILD], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        a = demo(d)
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        subprocess.run(["git", "-C", R, "apply", d + "/patch.diff"], check=True)
        r = subprocess.run(["bash", TEST, "/tmp/w/seed.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        res = json.load(open("/tmp/w/seed.json"))
        lost = stable - set(res["passed"])
        b = demo(d) if res["passed"] else None
        good = a.returncode == 0 and not lost and b and b.returncode != 0
        print(s["id"], "good" if good else "BAD", "demo %d -> %s" % (a.returncode, b and b.returncode), "lost %d %s" % (len(lost), sorted(lost)[:4]))
        if not good:
            print("   ", a.stdout.decode()[-600:], "|", (b.stdout if b else r.stdout).decode(errors="replace")[-900:])
        sys.stdout.flush()
    sync()
    subprocess.run(["bash", BUILD], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


main()
