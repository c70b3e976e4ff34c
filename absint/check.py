"""python3 -m absint.check <PROPERTY> [...]

Extracts the type-checked MIR of /repo's current tree with the compiler driver
(driver/), analyses it and decides the property.  exit 0: no violation,
exit 1: VIOLATION line, exit 2: the analysis could not run."""
import fcntl
import hashlib
import resource
import importlib
import itertools
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
MODULES = ["props_arith", "props_obs", "props_div", "props_num", "props_text", "props_roots", "props_parse", "props_search", "props_misc"]
SECONDS = {"quick": 420, "thorough": 3000}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_driver():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "driver"))
    for k in ("RUSTC_WORKSPACE_WRAPPER", "RUSTC_WRAPPER", "RUSTFLAGS"):
        env.pop(k, None)
    r = sh(["cargo", "+nightly", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "driver"), env=env)
    exe = os.path.join(BUILD, "driver", "debug", "mirfacts")
    if r.returncode or not os.path.exists(exe):
        raise SystemExit2("driver does not build:\n" + r.stdout[-3000:])
    return exe


class SystemExit2(Exception):
    pass


def sysroot():
    r = sh(["rustc", "+nightly", "--print", "sysroot"])
    return r.stdout.strip()


WITNESS = os.path.join(VERIF, "absint", "witness.rs")


def overlay(witness):
    """scratch copy of the crate as it is in /repo now, plus the witness module"""
    dst = os.path.join(BUILD, "overlay-%d" % os.getpid())
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    for n in os.listdir(REPO):
        if n in (".git", "target"):
            continue
        a, b = os.path.join(REPO, n), os.path.join(dst, n)
        if os.path.isdir(a):
            shutil.copytree(a, b, symlinks=True, ignore=shutil.ignore_patterns("target"))
        else:
            shutil.copy2(a, b)
    if witness:
        shutil.copy(WITNESS, os.path.join(dst, "src", "zz_witness.rs"))
        with open(os.path.join(dst, "src", "lib.rs"), "a") as f:
            f.write("\nmod zz_witness;\n")
    return dst


def extract(exe, features=("--all-features",), tag="all", witness=True):
    """facts of the crate as it is in /repo now"""
    try:
        return _extract(exe, features, tag, witness)
    except SystemExit2:
        if not witness:
            raise
        return _extract(exe, features, tag, False)


def _extract(exe, features, tag, witness):
    os.makedirs(BUILD, exist_ok=True)
    target = os.path.join(BUILD, "target-" + tag)
    fp = os.path.join(target, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("rustnomial-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    shutil.rmtree(os.path.join(target, "debug", "build", "rustnomial"), ignore_errors=True)
    out = os.path.join(BUILD, "facts-%s-%d.json" % (tag, os.getpid()))
    env = dict(os.environ)
    env.update({"LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"), "MIRFACTS_OUT": out, "MIRFACTS_CRATE": "rustnomial",
                "RUSTC_WORKSPACE_WRAPPER": exe, "CARGO_TARGET_DIR": target, "CARGO_NET_OFFLINE": "true",
                "CARGO_INCREMENTAL": "0"})
    env.pop("RUSTFLAGS", None)
    src = overlay(witness)
    try:
        r = sh(["cargo", "+nightly", "check", "--offline", "--lib"] + list(features), cwd=src, env=env)
    finally:
        shutil.rmtree(src, ignore_errors=True)
    if r.returncode or not os.path.exists(out):
        raise SystemExit2("cannot analyse /repo (%s):\n%s" % (" ".join(features), r.stdout[-3000:]))
    try:
        from .facts import Facts
        return Facts(out)
    finally:
        os.unlink(out)


def source_hash():
    h = hashlib.sha256()
    n = 0
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(p.encode())
            h.update(open(p, "rb").read())
            n += 1
    return h.hexdigest()[:16], n


def props():
    P = {}
    for m in MODULES:
        try:
            P.update(importlib.import_module("absint." + m).PROPS)
        except ModuleNotFoundError as e:
            if "absint." + m not in str(e):
                raise
    return P


_T = []


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))


def _work(i):
    from .state import Stats
    from . import ring
    Stats.entail, Stats.calls, Stats.forks = 0, 0, 0
    Stats.fns, Stats.loops = set(), {}
    ring._ctr = itertools.count()
    t = time.time()
    try:
        rs = _T[i]()
    except Exception:
        from .oblig import Res
        rs = [Res("obligation %d" % i, "internal", "unknown", traceback.format_exc()[-900:])]
    return i, [(r.ob, r.label, r.verdict, jsonable(r.detail), r.where) for r in rs], sorted(Stats.fns), Stats.entail, len(Stats.loops), time.time() - t


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


def analysed():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        return extract(build_driver())


def run(pid, tier):
    """-> (results, stats)"""
    F = analysed()
    P = props()
    if pid not in P:
        raise SystemExit2("unknown property %s" % pid)
    global _T
    _T = list(P[pid](F, tier))
    limit = SECONDS[tier]
    t0 = time.time()
    results, fns, ent, loops = [], set(), 0, 0
    done = set()
    with multiprocessing.get_context("fork").Pool(min(8, max(1, len(_T))), initializer=_limit) as pool:
        pend = {i: pool.apply_async(_work, (i,)) for i in range(len(_T))}
        for i, h in pend.items():
            left = limit - (time.time() - t0)
            try:
                _, rs, fs, e, l, dt = h.get(max(0.1, left))
            except multiprocessing.TimeoutError:
                results.append(("obligation %d" % i, "time", "unknown", "time limit", None))
                continue
            results += rs
            fns |= set(fs)
            ent += e
            loops += l
        pool.terminate()
    return F, results, fns, ent


def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == pid and k.get("status") == "known"]


def matches(k, r):
    s = " ".join(str(x) for x in (r[0], r[1], r[4]))
    return all(m in s for m in k["match"])


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in SECONDS:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    try:
        F, results, fns, ent = run(pid, tier)
    except SystemExit2 as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    h, nfiles = source_hash()
    bad, kn, unk, okk = [], [], [], []
    ks = known(pid)
    for r in results:
        if r[2] == "refuted":
            k = next((k for k in ks if matches(k, r)), None)
            (kn if k else bad).append((r, k))
        elif r[2] == "unknown":
            unk.append(r)
        else:
            okk.append(r)
    for r in unk:
        print("UNDECIDED %s | %s | %s" % (r[0], r[1], str(r[3])[:300]))
    seen = set()
    for r, k in kn:
        if k["what"] not in seen:
            seen.add(k["what"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    names = sorted({F.fns[x]["path"] + " (" + F.fns[x]["span"] + ")" for x in fns if x in F.fns})
    mod = sys.modules.get("absint.rules")
    from .rules import RULES
    obs = sorted({"%s: %s" % (r[0], r[1]) for r in results})
    cov = {"obligations": len(results), "discharged": len(okk), "undecided": len(unk),
           "checker_cmd": "VERIF_TIER=%s python3 -m absint.check %s" % (tier, pid),
           "trusted_base": ["rustc nightly (type checking, borrow checking, MIR construction)", "driver/src/main.rs (MIR to facts)",
                            "absint/ (abstract interpreter, models of core/alloc/num functions, ring and linear domains)",
                            "coefficients behave as elements of a commutative ring with N's own division"],
           "rule": RULES.get(pid, ""),
           "analysed_functions": len(names), "functions": names[:400],
           "obligation_sites": obs[:400], "entailment_queries": ent,
           "source_sha256": h, "source_files": nfiles,
           "samples": [{"site": r[0], "obligation": r[1], "partition": r[4], "verdict": r[2]} for r in results[:6]]}
    if unk:
        cov["undecided_sites"] = [{"site": r[0], "obligation": r[1], "why": str(r[3])[:300]} for r in unk[:100]]
    rep = {"property": pid, "tier": tier, "seed": seed, "level": LEVELS.get(pid, "proof"), "coverage": cov,
           "assumptions": ASSUME.get(pid, ASSUME["*"]), "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(rep, f, indent=1)
    rp = os.path.join(ev, pid + ".violation.json")
    if os.path.exists(rp):
        os.unlink(rp)
    if bad:
        with open(rp, "w") as f:
            json.dump([{"site": r[0], "obligation": r[1], "partition": r[4], "counterexample": r[3]} for r, _ in bad], f, indent=1)
        for r, _ in bad[:10]:
            print("  %s | %s | %s | %s" % (r[0], r[1], str(r[4])[:300], str(r[3])[:500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s obligations=%d discharged=%d undecided=%d functions=%d %.1fs" % (pid, len(results), len(okk), len(unk), len(names), time.time() - t0))
    return 0


LEVELS = {"C19": "other"}
ASSUME = {"*": ["coefficient arithmetic is treated as exact commutative-ring arithmetic (no overflow of N, no float rounding)",
                "degrees and lengths stay far below usize::MAX"]}

if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        # the order of sets must not depend on the run
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "absint.check"] + sys.argv[1:])
    sys.exit(main())
