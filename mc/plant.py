"""Confirm and keep a planted bug:  python3-vt mc/plant.py SPEC.py [id ...]

SPEC.py defines BUGS = [dict(id, property, needs, what, edits=[(file, old, new)], demo)].
Every bug is applied to a scratch copy of /repo; it is kept under seeded/<id>/ only if it
builds, passes the stable tests, and its demonstration passes without and fails with it.
Then the checks named (default: the property's) are run against the scratch copy.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
RUN = """#!/bin/sh
cd_dir=$(cd "$(dirname "$0")" && pwd)
PY=/opt/veriftools/pyvenv/bin/python
[ -x "$PY" ] || PY=python3-vt
exec env PYTHONPATH="$cd_dir" PYTHONHASHSEED=0 timeout 250 "$PY" -B "$cd_dir/demo.py"
"""


def sh(cmd, cwd, env=None, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout,
                       env=dict(os.environ, **(env or {})))
    return r.returncode, r.stdout + r.stderr


def tests(repo):
    # the stable tests are plain unittest over the tables
    rc, out = sh([sys.executable, "-B", "-m", "unittest", "computing.test_d_table"], repo)
    return rc == 0, out[-500:]


def main(argv):
    spec = {}
    exec(compile(open(argv[0]).read(), argv[0], "exec"), spec)
    only = set(argv[1:])
    for b in spec["BUGS"]:
        if only and b["id"] not in only:
            continue
        work = tempfile.mkdtemp(prefix="plant-")
        repo = os.path.join(work, "repo")
        try:
            subprocess.check_call(["git", "clone", "-q", "--no-hardlinks", "/repo", repo])
            d = os.path.join(work, "demo")
            os.makedirs(d)
            shutil.copy(os.path.join(HERE, "mc", "plantkit", "kit.py"), d)
            open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
            open(os.path.join(d, "demo.sh"), "w").write(RUN)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            rc0, out0 = sh([os.path.join(d, "demo.sh")], repo)
            if rc0 != 0:
                print("%s: demo fails on the unchanged tree: %s" % (b["id"], out0[-1500:]))
                continue
            bad = False
            for f, old, new in b["edits"]:
                p = os.path.join(repo, f)
                s = open(p, newline="").read()
                if s.count(old) != 1:
                    print("%s: %d matches in %s for %r" % (b["id"], s.count(old), f, old[:80]))
                    bad = True
                    break
                open(p, "w", newline="").write(s.replace(old, new))
            if bad:
                continue
            ok, out = tests(repo)
            if not ok:
                print("%s: the tests notice it: %s" % (b["id"], out))
                continue
            rc1, out1 = sh([os.path.join(d, "demo.sh")], repo)
            if rc1 == 0:
                print("%s: the demo does not notice it" % b["id"])
                continue
            diff = subprocess.check_output(["git", "diff"], cwd=repo, text=True)
            keep = os.path.join(HERE, "seeded", b["id"])
            shutil.rmtree(keep, ignore_errors=True)
            shutil.copytree(d, keep)
            open(os.path.join(keep, "patch.diff"), "w", newline="").write(diff)
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what"]),
                      open(os.path.join(keep, "meta.json"), "w"), indent=1)
            res = []
            for prop in b.get("checks", [b["property"]]):
                rc, out = sh(["./check", prop], HERE, env=dict(VERIF_REPO=repo, VERIF_SEED="1"))
                first = [l for l in out.splitlines() if l.strip()][:3]
                res.append("%s %s" % (prop, {0: "MISSED", 1: "caught", 2: "NO ANSWER"}.get(rc, rc)))
                if rc != 1 or "-v" in argv:
                    res.append("\n   ".join(first))
                elif rc == 1:
                    res.append("[" + " ".join(first[1:2])[:160].strip() + "]")
            mp = os.path.join(HERE, "mc", "matrix.json")
            mat = json.load(open(mp)) if os.path.exists(mp) else {}
            mat[b["id"]] = dict(caught=[r.split()[0] for r in res if r.endswith(" caught")], missed=[r.split()[0] for r in res if r.endswith((" MISSED", " NO ANSWER"))])
            json.dump(mat, open(mp, "w"), indent=1, sort_keys=True)
            print("%s: demo %s | %s" % (b["id"], (out1.strip().splitlines() or ["?"])[-1][:150], " ".join(res)))
        finally:
            shutil.rmtree(work, ignore_errors=True)
        sys.stdout.flush()


if __name__ == "__main__":
    main(sys.argv[1:])
