"""Makes a planted bug: python3 tools/plant.py SPEC.py [ID ...]

SPEC.py defines BUGS = {id: dict(property, file, edits=[(old, new)...] or files={file: edits}, needs, breaks, demo)}.
Each is written to seeded/<id>/ after confirming, in a scratch copy of /repo, that the patch builds, passes the stable
tests, and that the demonstration passes without it and fails with it.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "python/lsst/skymap/"
SH = '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    for bid, b in bugs.items():
        if sys.argv[2:] and bid not in sys.argv[2:]:
            continue
        tmp = tempfile.mkdtemp(prefix="plant")
        try:
            repo = os.path.join(tmp, "repo")
            subprocess.check_call(["git", "clone", "-q", "/repo", repo])
            out = os.path.join(tmp, "seed")
            shutil.copytree(os.path.join(HERE, "tools", "demokit"), out,
                            ignore=shutil.ignore_patterns("__pycache__"))
            open(os.path.join(out, "demo.sh"), "w").write(SH)
            open(os.path.join(out, "demo.py"), "w").write("from kit import *\n" + b["demo"].lstrip("\n"))
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]),
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
            clean = sh("bash %s/demo.sh" % out, repo)
            for f, edits in (b.get("files") or {b["file"]: b["edits"]}).items():
                path = os.path.join(repo, D + f)
                s = open(path).read()
                for old, new in edits:
                    if s.count(old) != 1:
                        print(bid, f, "has", s.count(old), "times", old)
                    s = s.replace(old, new)
                open(path, "w").write(s)
            diff = sh("git diff", repo).stdout
            bad = sh("bash %s/demo.sh" % out, repo)
            ok = clean.returncode == 0 and bad.returncode != 0
            print(bid, "demo clean", clean.returncode, "patched", bad.returncode,
                  bad.stderr.strip().splitlines()[-1:] or bad.stdout[-200:])
            if clean.returncode:
                print(clean.stderr[-1500:])
            if not ok:
                continue
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            a = sh("git apply %s/patch.diff" % out, "/repo")
            try:
                assert a.returncode == 0, a.stderr
                bl = sh("bash /opt/vp/build.sh", "/repo")
                t = sh("bash /opt/vp/test.sh %s/t.json" % tmp, "/repo")
                res = json.load(open(tmp + "/t.json"))
                base = json.load(open("/opt/vp/BASELINE.json"))
            finally:
                sh("git checkout -- .", "/repo")
            missing = missed(base, res)
            print("   build", bl.returncode, "tests", "ok" if not missing else missing)
            if bl.returncode or missing:
                continue
            dest = os.path.join(HERE, "seeded", bid)
            shutil.rmtree(dest, ignore_errors=True)
            shutil.rmtree(os.path.join(out, "__pycache__"), ignore_errors=True)
            shutil.copytree(out, dest, ignore=shutil.ignore_patterns("__pycache__"))
            print("   kept")
        finally:
            shutil.rmtree(tmp)


def missed(base, res):
    stable = base.get("stable") or base.get("passed") or base
    got = set(res.get("passed", []))
    return [t for t in stable if t not in got]


if __name__ == "__main__":
    main()
