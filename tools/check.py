#!/usr/bin/env python3
"""Decide one property by symbolic execution of /repo's current code.

    check.py PROPERTY [quick|thorough]     run the check
    check.py --setup                       build engine and warm the caches
    check.py --replay FILE                 run a recorded counterexample natively

Exit status: 0 held, 1 violated (with a VIOLATION line), 2 could not decide.
"""

import concurrent.futures
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import config  # noqa: E402

TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
NPROC = min(8, os.cpu_count() or 1)
MEM = 12 << 30


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST", "MIRI"))}
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    home = e.setdefault("HOME", "/root")
    e["PATH"] = home + "/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(kw)
    return e


class Inconclusive(Exception):
    pass


def sh(cmd, cwd, environ, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=environ, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout


# --------------------------------------------------------------------- builds

def build_engine():
    rc, out = sh(["cargo", "build", "--release", "--offline", "--target-dir", BUILD + "/engine"],
                 VERIF + "/engine", env())
    if rc:
        raise Inconclusive("engine does not build:\n" + out[-4000:])
    return BUILD + "/engine/release/sx"


def tree_hash():
    """Identifies the sources the harnesses are built from."""
    h = hashlib.sha256()
    roots = [REPO + "/lib", REPO + "/Cargo.toml", VERIF + "/harness"]
    for root in roots:
        files = [root] if os.path.isfile(root) else []
        for d, dirs, names in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            files += [os.path.join(d, n) for n in names]
        for f in sorted(files):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fd:
                h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()[:16]


def target_dir():
    """One cargo target directory per content of the sources."""
    base = BUILD + "/harness"
    os.makedirs(base, exist_ok=True)
    mine = os.path.join(base, tree_hash())
    os.makedirs(mine, exist_ok=True)
    os.utime(mine)
    others = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime, reverse=True)
    for d in others[3:]:
        if d != mine:
            shutil.rmtree(d, ignore_errors=True)
    return mine


SX_FLAGS = "-C debuginfo=line-tables-only -C no-vectorize-loops -C no-vectorize-slp --emit=llvm-ir"


def build_ir(prop, tgt):
    feat = prop.lower()
    rc, out = sh(["cargo", "build", "--offline", "--profile", "sx", "--features", feat, "--target-dir", tgt + "/sx"],
                 VERIF + "/harness/symb", env(RUSTFLAGS=SX_FLAGS))
    if rc:
        raise Inconclusive("harness does not build:\n" + out[-6000:])
    src = tgt + "/sx/sx/deps/symb.ll"
    dst = tgt + "/" + feat + ".ll"
    shutil.copyfile(src, dst)
    return dst


def build_native(prop, tgt):
    feat = prop.lower()
    rc, out = sh(["cargo", "build", "--offline", "--profile", "replay", "--features", feat, "--target-dir", tgt + "/nat"],
                 VERIF + "/harness/native", env(RUSTFLAGS="-C debuginfo=0"))
    if rc:
        raise Inconclusive("replay program does not build:\n" + out[-6000:])
    dst = tgt + "/" + feat + ".native"
    tmp = dst + ".tmp"
    shutil.copy2(tgt + "/nat/replay/native", tmp)
    os.replace(tmp, dst)
    return dst


# ----------------------------------------------------------------- symbolic runs

STOP = threading.Event()
LOCK = threading.Lock()
RUNNING = set()


def stop():
    """A violation is confirmed: the remaining runs decide nothing more."""
    with LOCK:
        STOP.set()
        for p in RUNNING:
            p.kill()


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_job(sx, ll, job, shard, deadline):
    left = deadline - time.time()
    if left < 2:
        return {"harness": job.harness, "params": job.p, "status": "incomplete", "cuts": {"no time left": 1}}
    cmd = [sx, ll, job.harness]
    for p in job.p:
        cmd += ["-p", str(p)]
    cmd += ["--timeout", "%.1f" % (left - 1), "--query-timeout", "%.1f" % min(left, 300),
            "--max-steps", str(job.steps), "--samples", str(max(4, config.SAMPLES // job.shards))]
    if job.split:
        cmd += ["--split"]
    if job.shards > 1:
        cmd += ["--shard", "%d/%d" % (shard, job.shards)]
    with LOCK:
        if STOP.is_set():
            return {"harness": job.harness, "params": job.p, "status": "incomplete", "cuts": {"not run": 1}}
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                             preexec_fn=limits)
        RUNNING.add(p)
    try:
        out, err = p.communicate(timeout=left + 20)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"harness": job.harness, "params": job.p, "status": "incomplete", "cuts": {"killed on time": 1}}
    finally:
        with LOCK:
            RUNNING.discard(p)
    try:
        r = json.loads(out)
    except ValueError:
        return {"harness": job.harness, "params": job.p, "status": "incomplete",
                "cuts": {"engine ended with %s: %s" % (p.returncode, err[-600:]): 1}}
    r["job"] = job
    return r


# -------------------------------------------------------------------- native side

def native(binary, harness, values, params, trace, timeout=30):
    fd, f = tempfile.mkstemp(".txt", "values-", OUT)
    with os.fdopen(fd, "w") as fd:
        fd.write("\n".join(values) + "\n")
    try:
        cmd = [binary] + (["--trace"] if trace else []) + [harness, f] + [str(p) for p in params]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=timeout, env=env(RUST_BACKTRACE="0"))
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return None, "", ""
    finally:
        os.unlink(f)


def split64(values, widths=None):
    return list(values)


def validate_samples(binary, results):
    """Replay sample paths on the real code: the executor and the machine must
    agree on every observation."""
    todo = []
    for r in results:
        for s in r.get("samples", []):
            todo.append((r["harness"], r["params"], s))

    def one(x):
        harness, params, s = x
        rc, out, err = native(binary, harness, s["values"], params, True)
        got = [l for l in out.splitlines() if l]
        return got == s["trace"], got, x, rc, err

    ok, shown = 0, []
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        for good, got, x, rc, err in ex.map(one, todo):
            if not good:
                harness, params, s = x
                k = next((i for i, (a, b) in enumerate(zip(got, s["trace"])) if a != b), min(len(got), len(s["trace"])))
                raise Inconclusive("executor and native run disagree: %s %s values %s: event %d: native %s (exit %s), executor %s\n%s"
                                   % (harness, params, s["values"], k, got[k:k + 3], rc, s["trace"][k:k + 3], err[-300:]))
            ok += 1
            if len(shown) < 6:
                shown.append({"harness": x[0], "params": x[1], "values": x[2]["values"][:64], "observed": x[2]["trace"][:12]})
    return ok, shown


UB = ("memory", "align", "uninit", "unreachable", "free", "division")


def miri(prop, tgt, harness, params, values):
    """Run natively under Miri; true if it reports undefined behaviour."""
    f = os.path.join(OUT, "miri-values.txt")
    with open(f, "w") as fd:
        fd.write("\n".join(values) + "\n")
    e = env(RUSTUP_TOOLCHAIN="nightly", MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-permissive-provenance",
            MIRI_SYSROOT=BUILD + "/miri")
    rc, out = sh(["cargo", "miri", "setup"], VERIF + "/harness/native", e, 300)
    if rc:
        return None, out[-2000:]
    try:
        rc, out = sh(["cargo", "miri", "run", "--offline", "--features", prop.lower(), "--target-dir", tgt + "/miri", "--",
                      harness, f] + [str(p) for p in params], VERIF + "/harness/native", e, 400)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    return "Undefined Behavior" in out or rc == 101 or rc == 1, out[-3000:]


def confirm(prop, tgt, binary, r, v):
    """Does the counterexample reproduce on the real code?"""
    rc, out, err = native(binary, r["harness"], v["values"], r["params"], False)
    kind = v["kind"]
    last = out.strip().splitlines()[-1] if out.strip() else ""
    if kind == "check" and rc == 1 and last == "SX-CHECK %d" % v["id"]:
        return True, last
    if kind == "alloc" and rc == 1 and last.startswith("SX-ALLOC"):
        return True, last
    if kind == "steps" and rc is None:
        return True, "does not end within 30 s"
    if rc is None and kind not in UB:
        return False, "native run did not end"
    if rc in (1, 101) or (rc is not None and rc < 0):
        # another check or panic fires first on the same input: still broken
        return True, "exit %s %s %s" % (rc, last, err.strip()[:400])
    if kind in UB:
        bad, text = miri(prop, tgt, r["harness"], r["params"], v["values"])
        if bad:
            return True, "undefined behaviour (Miri): " + text[-800:]
        return False, "Miri: " + text[-800:]
    return False, "exit %s %s %s" % (rc, last, err[-400:])


def demangle(n):
    if not n.startswith("_R"):
        return n
    ids, i = [], 2
    for m in re.finditer(r"(?<![0-9])([1-9][0-9]*)_?(?=[A-Za-z_])", n):
        if m.start() < i:
            continue
        k = int(m.group(1))
        s = n[m.end():m.end() + k]
        if len(s) == k and re.fullmatch(r"[A-Za-z0-9_]+", s):
            ids.append(s)
            i = m.end() + k
    return "::".join(ids) or n


# -------------------------------------------------------------------------- main

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) harness=(\S+) kind=(\S+) id=(\d+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), int(m.group(4)), m.group(5)))
    return out


def check(prop, tier):
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    evf = "%s/evidence/%s.json" % (VERIF, prop)
    if os.path.exists(evf):
        os.unlink(evf)
    chk = config.CHECKS[prop]
    budget = 780 if tier == "quick" else 3 * 3600
    deadline = t0 + budget
    sx = build_engine()
    tgt = target_dir()
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fn = ex.submit(build_native, prop, tgt)
        ll = build_ir(prop, tgt)
        binary = fn.result()
    jobs = [j for j in chk.jobs if tier == "thorough" or j.tier == "quick"]
    if tier == "quick":
        jobs = [j for j in jobs if j.tier == "quick"]
    units = [(j, i) for j in jobs for i in range(j.shards)]
    units.sort(key=lambda u: -u[0].cost)
    results, notes, noted, found = [], [], [], None
    known = known_findings(prop)
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        futs = [ex.submit(run_job, sx, ll, j, i, deadline) for j, i in units]
        for f in concurrent.futures.as_completed(futs):
            r = f.result()
            results.append(r)
            for v in r.get("violations", []) if found is None else []:
                k = [x for x in known if (x[0], x[1], x[2]) == (r["harness"], v["kind"], v["id"])]
                if k:
                    noted.append((r, v, k[0]))
                    continue
                # reproduce the counterexample on the real code
                okay, how = confirm(prop, tgt, binary, r, v)
                if okay:
                    found = (r, v, how)
                    stop()
                    break
                notes.append("%s %s: %s (values %s) not reproduced natively: %s"
                             % (r["harness"], r["params"], v["msg"], " ".join(v["values"][:40]), how))
    if found:
        r, v, how = found
        rep = "%s/%s-%s.json" % (OUT, prop, r["harness"])
        with open(rep, "w") as fd:
            json.dump({"property": prop, "harness": r["harness"], "params": r["params"], "values": v["values"],
                       "kind": v["kind"], "id": v["id"], "message": v["msg"],
                       "meaning": chk.meaning.get((r["harness"], v["id"]), ""),
                       "where": [demangle(x) for x in v["stack"]][:8], "native": how}, fd, indent=1)
        write_evidence(prop, tier, chk, jobs, results, evf, t0, 0, [], 1)
        print("harness %s %s: %s; native: %s" % (r["harness"], r["params"], v["msg"], how[:300]))
        print("values: %s" % " ".join(v["values"][:64]))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    if notes:
        raise Inconclusive("\n".join(notes))
    for r in results:
        if r["status"] not in ("held", "violation"):
            raise Inconclusive("%s %s: %s" % (r["harness"], r["params"], "; ".join(r.get("cuts", {}) or ["?"])))
    # vacuity: every cover of a job is reached in one of its shards
    for j in jobs:
        mine = [r for r in results if r.get("job") is j]
        for c in j.covers:
            if not any(str(c) in r["covers"] for r in mine):
                raise Inconclusive("%s %s: cover %s not reached" % (j.harness, j.p, c))
        if sum(r["paths"] for r in mine) == 0:
            raise Inconclusive("%s %s: no path" % (j.harness, j.p))
    nval, shown = validate_samples(binary, results)
    write_evidence(prop, tier, chk, jobs, results, evf, t0, nval, shown, 0)
    for r, v, k in noted:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    print("%s %s: held on %d harness runs, %d paths, %d solver queries, %.1f s"
          % (prop, tier, len(results), sum(r["paths"] for r in results), sum(r["queries"] for r in results), time.time() - t0))
    return 0


def write_evidence(prop, tier, chk, jobs, results, evf, t0, nval, shown, nviol):
    tot = lambda k: sum(r.get(k, 0) for r in results)
    src = {}
    for r in results:
        for f, fns in r.get("source", {}).items():
            for n, lines in fns.items():
                src.setdefault(f.replace(REPO + "/", ""), {}).setdefault(demangle(n), set()).update(lines)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": config.LEVEL,
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("instructions"),
            "traces_validated_against_impl": nval,
            "samples": shown,
            "explanation": "states: symbolic paths run to completion; transitions: LLVM instructions executed symbolically "
                           "(shared prefixes count once per path); traces: sample paths replayed natively with equal observations",
            "functions_encoded": {f: sorted(n) for f, n in sorted(src.items())},
            "source_lines_encoded": {f: len(set().union(*n.values())) for f, n in sorted(src.items())},
            "bounds": [j.bound for j in jobs if j.bound],
            "outside_bounds": chk.outside,
            "queries": tot("queries"),
            "queries_sat": tot("sat"),
            "queries_unsat": tot("unsat"),
            "queries_answered_from_cache": tot("cached"),
            "solver_s": round(tot("solver_s"), 3),
            "solver": next((r["solver"] for r in results if "solver" in r), ""),
            "assertions_decided_by_solver": tot("assertions_solver"),
            "assertions_constant_on_path": tot("assertions_folded"),
            "paths_excluded_by_assumption": tot("killed"),
            "branches_split": tot("forks"),
            "harness_runs": [{"harness": r["harness"], "params": r["params"], "status": r["status"], "paths": r.get("paths"),
                              "queries": r.get("queries"), "solver_s": r.get("solver_s"), "wall_s": r.get("wall_s"),
                              "covers": r.get("covers")} for r in results],
        },
        "assumptions": config.ASSUMPTIONS + chk.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    with open(evf, "w") as fd:
        json.dump(ev, fd, indent=1)


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "--setup":
            build_engine()
            tgt = target_dir()
            for p in sorted(config.CHECKS):
                with concurrent.futures.ThreadPoolExecutor(2) as ex:
                    f = ex.submit(build_native, p, tgt)
                    build_ir(p, tgt)
                    f.result()
            return 0
        if a[0] == "--replay":
            d = json.load(open(a[1]))
            os.makedirs(OUT, exist_ok=True)
            b = build_native(d["property"], target_dir())
            rc, out, err = native(b, d["harness"], d["values"], d["params"], False)
            print(out, err, "exit", rc)
            return 0 if rc == 0 else 1
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(a[0], tier)
    except Inconclusive as e:
        print("cannot decide: %s" % e)
        return 2
    except subprocess.TimeoutExpired as e:
        print("cannot decide: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
