"""check <property>: analyse /repo's current source and report on one property."""
import fcntl
import importlib
import json
import os
import pkgutil
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ALGEO_REPO", "/repo")
DRIVER = os.path.join(VERIF, "driver", "target", "release", "mirdump")


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()


def build_driver():
    with open(os.path.join(VERIF, "driver", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = os.path.join(VERIF, "driver", "src", "main.rs")
        if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= os.path.getmtime(src):
            return
        env = dict(os.environ)
        env.pop("RUSTC_WORKSPACE_WRAPPER", None)
        r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "-q"], cwd=os.path.join(VERIF, "driver"),
                           env=env, capture_output=True, text=True)
        if r.returncode or not os.path.exists(DRIVER):
            raise RuntimeError("building the MIR driver failed: " + r.stderr[-2000:])


def extract():
    """the typed MIR of /repo's current working tree (fresh target directory: the wrapper always runs)"""
    tmp = tempfile.mkdtemp(prefix="algeo-mir-")
    try:
        out = os.path.join(tmp, "out")
        os.mkdir(out)
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
        env["MIRDUMP_OUT"] = out
        env["CARGO_TARGET_DIR"] = os.path.join(tmp, "target")
        env["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
        env["CARGO_INCREMENTAL"] = "0"
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "-q", "--lib"], cwd=REPO, env=env, capture_output=True, text=True)
        p = os.path.join(out, "algeo-lib.json")
        if not os.path.exists(p):
            raise RuntimeError("no MIR extracted: " + (r.stderr or "")[-3000:])
        from .interp import Prog
        return Prog(p)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def checks():
    import sa.checks as c
    out = {}
    for m in pkgutil.iter_modules(c.__path__):
        mod = importlib.import_module("sa.checks." + m.name)
        out.update(getattr(mod, "CHECKS", {}))
    return out


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" :: ")
                out[key] = what
    return out


RULES = "abstract interpretation of the typed MIR: every path of every analysed function is summarised by value numbers and path facts (loops by closed forms and inductive invariants, no unrolling); an obligation is proved by normal forms and linear reasoning over the facts, violated only if the facts have a valuation on which it is false, else undecided"


class TimeUp(BaseException):
    pass


def limited(seconds, f):
    """run f; False if it did not end in time"""
    def up(*a):
        raise TimeUp()
    signal.signal(signal.SIGALRM, up)
    signal.alarm(seconds)
    try:
        f()
        return True
    except TimeUp:
        return False
    finally:
        signal.alarm(0)


FIRST = 540     # seconds for the obligations, and then for the second look at the undecided ones
SECOND = 240


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    build_driver()
    prog = extract()
    from .check import Suite
    S = Suite(pid, prog, tier)
    fn = checks()[pid]
    try:
        if not limited(FIRST, lambda: fn(S)):
            S.undecided(pid, "analysis", "cut off after %d s" % FIRST)
    except Exception as e:          # an analysis gap: nothing is claimed beyond what was decided
        import traceback
        S.undecided(pid, "analysis", "%s: %s" % (type(e).__name__, str(e)[:300]))
        S.note = traceback.format_exc()[-1500:]
    if S.counts()["undecided"] and not S.violations:
        second_look(S, fn, tier)
    return report(S, pid, tier, seed, t0)


def second_look(S, fn, tier):
    """what the summaries do not decide: the same obligations on the traces that enter a loop without an
    exact summary at most a few times (trace partitioning); this can only add violations"""
    from .check import Suite
    for k in ((2,) if tier == "quick" else (2, 4)):
        T = Suite(S.pid, S.prog, tier)
        T.peel = k
        try:
            if not limited(SECOND if tier == "quick" else SECOND // 2, lambda: fn(T)):
                S.note = "second look cut off"
        except Exception as e:
            S.note = "second look: %s: %s" % (type(e).__name__, str(e)[:200])
        S.traces = sum(f["paths"] for f in T.functions.values())
        if T.violations:
            S.violations.update(T.violations)
            S.obl += [o for o in T.obl if o["status"] == "violated"]
            return


def report(S, pid, tier, seed, t0):
    known = known_findings(pid)
    c = S.counts()
    new = {k: v for k, v in S.violations.items() if k not in known}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join("evidence", "%s.json" % pid)
    und = [o for o in S.obl if o["status"] == "undecided"]
    samples, seen = [], set()
    for o in S.obl:
        if o["status"] == "proved" and o["function"] not in seen and len(samples) < 12:
            seen.add(o["function"])
            samples.append("%s: %s" % (o["function"], o["obligation"]))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": RULES,
            "functions_analysed": len(S.functions),
            "paths_summarised": sum(f["paths"] for f in S.functions.values()),
            "obligations": len(S.obl), "discharged": c["proved"], "undecided": c["undecided"], "violated": c["violated"],
            "functions": S.functions, "samples": samples,
            "undecided_list": [{k: str(v)[:400] for k, v in o.items()} for o in und[:40]],
            "mir_bodies_in_crate": len(S.prog.d["bodies"]),
        },
        "assumptions": ["machine integers of 64 bits and more do not overflow", "field elements obey exact field arithmetic",
                        "models of the standard library functions used"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    if getattr(S, "traces", None):
        ev["coverage"]["traces_of_unsummarised_loops"] = S.traces
    if getattr(S, "note", None):
        ev["coverage"]["internal_note"] = S.note
    with open(os.path.join(VERIF, path), "w") as f:
        json.dump(ev, f, indent=1)
    for k in S.violations:
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k] or k))
    print("%s: %d functions, %d obligations: %d proved, %d undecided, %d violated (%.1fs)" %
          (pid, len(S.functions), len(S.obl), c["proved"], c["undecided"], c["violated"], time.time() - t0))
    for o in und[:10]:
        print("  undecided: %s | %s | %s" % (o["function"], o["obligation"], str(o.get("why"))[:160]))
    if new:
        rp = os.path.join("evidence", "%s.violation.json" % pid)
        with open(os.path.join(VERIF, rp), "w") as f:
            json.dump(new, f, indent=1, default=str)
        for k, v in new.items():
            print("  violated: %s | %s | %s | e.g. %s" % (v["function"], v["rule"], str(v["why"])[:400], str(v["witness"])[:300]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except RuntimeError as e:
        # the tree does not build: nothing can be analysed
        print("VIOLATION property=%s replay=none (%s)" % (sys.argv[1], str(e)[:1500]))
        sys.exit(1)
