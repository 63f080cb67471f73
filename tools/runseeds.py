"""runs the check of each planted bug (or the ones named) against a scratch copy with the bug: runseeds.py [-a] [ids…]   (-a: all checks)"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="rs-")
    try:
        r = os.path.join(w, "repo")
        subprocess.run("git -C /repo worktree prune; mkdir %s && git -C /repo archive HEAD | tar x -C %s && cp /repo/Cargo.lock %s 2>/dev/null; git -C %s init -q; git -C %s apply %s/patch.diff" % (r, r, r, r, r, d), shell=True)
        o = subprocess.run(["./check", prop], cwd=V, env=dict(os.environ, ALGEO_REPO=r), capture_output=True, text=True)
        v = [l for l in o.stdout.splitlines() if "violated:" in l or "undecided:" in l]
        return i, o.returncode, v[:2], o.stderr[-300:]
    finally:
        shutil.rmtree(w)


ids = [a for a in sys.argv[1:] if a[0] != "-"] or sorted(os.listdir(os.path.join(V, "seeded")))
with ThreadPoolExecutor(4) as ex:
    n = 0
    for i, rc, v, err in ex.map(one, ids):
        n += rc == 1
        print("%-34s %s %s" % (i, {0: "MISSED", 1: "caught"}.get(rc, "rc=%d" % rc), (v[0][:170] if v else "") if "-q" not in sys.argv else ""), err if rc > 1 else "", flush=True)
    print(n, "of", len(ids), "caught")
