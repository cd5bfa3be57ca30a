"""Runs the property's check against each planted bug, on scratch copies: python3 tools/judge.py [ID ...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeded = os.path.join(HERE, "seeded")
tmp = tempfile.mkdtemp(prefix="judge")
try:
    ver = os.path.join(tmp, "verif")
    shutil.copytree(HERE, ver, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
    for bid in sys.argv[1:] or sorted(os.listdir(seeded)):
        d = os.path.join(seeded, bid)
        meta = json.load(open(os.path.join(d, "meta.json")))
        repo = os.path.join(tmp, "repo")
        shutil.rmtree(repo, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        subprocess.check_call(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo)
        t0 = time.time()
        r = subprocess.run(["/opt/venv/bin/python", "run.py", meta["property"], "--tier", "quick"], cwd=ver,
                           capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1"))
        caught = r.returncode == 1 and "VIOLATION property=%s " % meta["property"] in r.stdout
        print("%-32s %s rc=%d %.0fs %s" % (bid, "caught" if caught else "MISSED", r.returncode, time.time() - t0,
                                           "" if caught else (r.stdout + r.stderr)[-300:].replace("\n", " | ")), flush=True)
finally:
    shutil.rmtree(tmp)
