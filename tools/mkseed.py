"""plants a bug: mkseed.py <id> reads /verif/seeded/<id>/spec.py-style dict from stdin

spec (JSON on stdin): {"id","property","file","old","new","needs","breaks","demo"(rust main.rs)}; several edits: "edits":[[file,old,new],…]
Confirms in a scratch copy of /repo: applies, builds, stable tests pass, demo fails with and passes without the change.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# run in the repository: exit 0 when the property's behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
algeo = { path = "$repo" }
itertools = "0.10.1"
[workspace]
EOF
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run -q --offline
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)


def stable(out):
    ok = set()
    for l in out.splitlines():
        if l.startswith("test ") and l.rstrip().endswith("... ok"):
            ok.add(l.split()[1])
    return ok


def main():
    specs = json.load(sys.stdin)
    for sp in specs if isinstance(specs, list) else [specs]:
        one(sp)


def one(sp):
    d = os.path.join(V, "seeded", sp["id"])
    edits = sp.get("edits") or [[sp["file"], sp["old"], sp["new"]]]
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        r = os.path.join(w, "repo")
        sh("git worktree prune", "/repo")
        sh("cp -a /repo %s" % r, "/")
        sh("git checkout -q -- .", r)
        for f, o, n in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(o) != 1:
                print(sp["id"], "edit does not match once:", s.count(o), f, o[:60]); return
            open(p, "w").write(s.replace(o, n))
        patch = sh("git diff", r).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        open(os.path.join(d, "demo.rs"), "w").write(sp["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": sp["property"], "needs": sp["needs"], "what_it_breaks": sp["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        b = sh("timeout 200 cargo test --workspace --no-fail-fast --offline -- --test-threads 8", r)
        want = set(base())
        got = stable(b.stdout)
        bad = sorted(want - got)
        after = sh("bash %s/demo.sh" % d, r)
        sh("git checkout -q -- .", r)
        before = sh("bash %s/demo.sh" % d, r)
        ok = not bad and before.returncode == 0 and after.returncode not in (0, 2)
        print(sp["id"], "OK" if ok else "BAD", "tests missing:", bad[:3], "before", before.returncode, before.stderr[-300:] if before.returncode else "", "after", after.returncode,
              after.stderr.strip()[-160:].replace("\n", " "))
        if not ok:
            shutil.rmtree(d)
    finally:
        shutil.rmtree(w)


def base():
    j = json.load(open("/opt/vp/BASELINE.json"))
    x = j.get("stable") or j.get("passed") or j.get("tests") or j
    out = []
    for n in x:
        n = n if isinstance(n, str) else n.get("name") or n.get("id")
        out.append(n.split(" ")[-1].split("::", 1)[1] if n.split(" ")[-1].startswith("algeo") else n.split(" ")[-1])
    return out


main()
