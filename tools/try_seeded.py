"""Runs the checks against the planted bugs: try_seeded.py [--all] [ID...]; applies each patch to /repo and undoes it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
args = [a for a in sys.argv[1:] if not a.startswith("-")]
ids = args or sorted(os.listdir(S))
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True).stdout, "/repo is not clean"
man = json.load(open(os.path.join(V, "MANIFEST.json")))
claimed = [c["property"] for c in man["checks"]]
for i in ids:
    prop = json.load(open(os.path.join(S, i, "meta.json")))["property"]
    r = subprocess.run(["git", "-C", "/repo", "apply", os.path.join(S, i, "patch.diff")])
    try:
        res = []
        for p in (claimed if "--all" in sys.argv else [prop]):
            if p not in claimed: res.append(p + ":none"); continue
            q = subprocess.run([sys.executable, "check.py", p], cwd=V, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"), capture_output=True)
            res.append("%s:%s" % (p, {0: "quiet", 1: "CAUGHT"}.get(q.returncode, "exit %d" % q.returncode)))
        print(i, *res, flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
