#!/usr/bin/env python3
"""Decide one property by contract-based deductive verification of /repo's current source.

usage: check.py PROPERTY            (VERIF_TIER=quick|thorough, VERIF_SEED)

Tier A: Kani (CBMC) discharges the contract harnesses of /verif/hx, /verif/hxe against the real crates in
        /repo.  Loop-free / operand-width-bounded harnesses over full-domain inputs are proofs; the others
        are labelled bounded and never counted as proved.
Tier B: Verus discharges contracts spliced into functions extracted mechanically from /repo on this run.
A failed obligation is replayed natively against the real code.
"""
import json, os, re, shutil, subprocess, sys, threading, time, glob
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from props import PROPS  # noqa: E402
from fresh import forget_repo_builds, remember_builds  # noqa: E402

T0 = time.time()
PID = sys.argv[1]
P = PROPS[PID]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUDGET = 840 if TIER == "quick" else 3000
BUILD = os.path.join(V, "build")
OUT = os.path.join(BUILD, "out", PID)
os.makedirs(OUT, exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
ENV = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTUP_TOOLCHAIN", "RUSTFLAGS", "RUSTC"))}
ENV.update(CARGO_NET_OFFLINE="true", PGRX_HOME="/opt/vp/pgrx-home", TSDBTK_VERIF=os.path.join(V, "hooks"),
           CARGO_TERM_COLOR="never", PATH="/root/.cargo/bin:/usr/local/bin:" + ENV.get("PATH", "/usr/bin:/bin"))
NATIVE_TC = "1.96.0"
violations, notes, undecided = [], [], []


def left():
    return BUDGET - (time.time() - T0)


def log(*a):
    print(*a, flush=True)


def run(cmd, cwd, timeout, env=None, logf=None):
    """run with a process group so that a timeout kills the solvers too"""
    import signal
    f = open(logf, "w+") if logf else open(os.path.join(OUT, "cmd.log"), "w+")
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        p.wait(timeout=max(5, timeout))
        to = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        to = True
    f.seek(0)
    s = f.read()
    f.close()
    return p.returncode, s, to


HOOKFLAGS = "--cfg tsdbtk_verif"
_native = {}
_native_lock = threading.Lock()


def native(crate, feature):
    with _native_lock:
        if (crate, feature) not in _native:
            _native[(crate, feature)] = native_build(crate, feature)
        return _native[(crate, feature)]


def native_build(crate, feature):
    """build the native runner of the same contract bodies against the real code; None if it does not build"""
    tgt = os.path.join(BUILD, crate + "-native")
    digests = forget_repo_builds(tgt)
    env = dict(ENV, RUSTUP_TOOLCHAIN=NATIVE_TC, RUSTFLAGS=HOOKFLAGS)
    if crate == "hxe":
        env["RUSTFLAGS"] += " -C link-args=-Wl,--unresolved-symbols=ignore-all -C relocation-model=pic"
    rc, s, to = run(["cargo", "build", "--offline", "--features", feature, "--target-dir", tgt], os.path.join(V, crate),
                    min(left(), 400), env, os.path.join(OUT, "native-build.log"))
    exe = os.path.join(tgt, "debug", crate)
    r = exe if rc == 0 and os.path.exists(exe) else None
    if r:
        remember_builds(tgt, digests)
    if r is None:
        notes.append("native replay runner did not build: " + s[-400:])
    else:
        keep = os.path.join(OUT, f"runner-{crate}-{feature}")
        shutil.copy2(r, keep)
        r = keep
    return r


def replay_native(exe, harness, values):
    try:
        r = subprocess.run([exe, "replay", harness, values], env=ENV, capture_output=True, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return "hang", "replay did not finish in 60 s"
    o = r.stdout.strip()
    if "REPLAY-FAIL" in o or r.returncode < 0:
        return "fail", o or f"killed by signal {-r.returncode}"
    return "ok", o


def search_native(exe, harness, secs):
    if secs < 2:
        return None
    try:
        r = subprocess.run([exe, "search", harness, str(secs), str(SEED)], env=ENV, capture_output=True, text=True,
                           timeout=secs + 30)
    except subprocess.TimeoutExpired:
        return None
    m = re.search(r"SEARCH-FAIL n=(\d+) ok=(\d+) values=(\S*) msg=(.*)", r.stdout)
    if m:
        return m.group(3), m.group(4)
    if r.returncode < 0:
        return "", f"killed by signal {-r.returncode} during search"
    return None


def violation(name, what, replay):
    path = os.path.join(OUT, "replay-" + re.sub(r"\W+", "_", name) + ".json")
    replay = dict(property=PID, obligation=name, what=what, **replay)
    json.dump(replay, open(path, "w"), indent=1)
    tail = "" if replay.get("values") is not None else " no-failing-input-found"
    violations.append((name, what))
    log(f"failed obligation: {name}: {what}")
    log(f"VIOLATION property={PID} replay={path}{tail}")


# ---------------------------------------------------------------- Tier A: Kani
NOT_A_BUG = re.compile(r"unwinding assertion|UNDECIDED|is not currently supported|unsupported|recursion unwinding|"
                       r"call to foreign|function with missing definition|undefined function", re.I)


def kani(crate, feature, hs, conf):
    tgt = os.path.join(BUILD, crate)
    digests = forget_repo_builds(tgt)
    js = os.path.join(OUT, "kani.json")
    if os.path.exists(js):
        os.remove(js)
    jobs = conf.get("jobs", 8)
    ht = conf.get("harness_timeout", 300 if TIER == "quick" else 1200)
    cmd = ["cargo", "kani", "--features", feature, "-Z", "stubbing", "-Z", "unstable-options", "-j", str(jobs),
           "--output-format=terse", "--target-dir", tgt, "--export-json", js, "--harness-timeout", f"{ht}s"]
    env = dict(ENV, RUSTFLAGS=HOOKFLAGS)
    rc, s, to = run(cmd, os.path.join(V, crate), min(left() - 150, ht + 400), env, os.path.join(OUT, "kani.log"))
    res = {}
    if os.path.exists(js) and not to:
        remember_builds(tgt, digests)
        d = json.load(open(js))
        pd = {x["harness_id"]: x["property_details"] for x in d["property_details"]}
        st = {x["harness_id"]: x.get("cbmc_stats") or {} for x in d.get("cbmc", [])}
        ed = {x["harness_id"]: x for x in d["error_details"]}
        for r in d["verification_results"]["results"]:
            h = r["harness_id"]
            # IEEE NaN results are legal values here, not failures: CBMC's optional nan-check is not an obligation
            bad = [c for c in r["checks"] if c["status"] not in ("Success", "Satisfied", "Unreachable")]
            nan = [c for c in bad if c["description"].startswith("NaN on ")]
            bad = [c for c in bad if c not in nan]
            if r["status"] != "Success" and r["checks"] and not bad and nan:
                r["status"] = "Success"
            if nan and pd.get(h, {}).get("total_properties"):
                pd[h]["total_properties"] -= len(nan)
            res[h] = dict(status=r["status"], secs=r["duration_ms"] / 1000, p=pd.get(h, {}),
                          solver_s=st.get(h, {}).get("runtime_decision_procedure_s"),
                          exit=ed.get(h, {}).get("exit_status", ""),
                          bad=bad)
        return res, None
    # per-harness verdicts that were printed before a timeout
    for m in re.finditer(r"Checking harness (\S+?)\.\.\.", s):
        res.setdefault(m.group(1), dict(status="Unknown", secs=0, p={}, solver_s=None, exit="run timeout", bad=[]))
    err = None
    if not res:
        e = re.findall(r"^error.*(?:\n.*){0,6}", s, re.M)
        err = ("timeout" if to else "the harness crate does not compile against /repo: ") + " | ".join(e)[:1500]
    return res, err


def counterexamples(crate, feature, h):
    tgt = os.path.join(BUILD, crate)
    cmd = ["cargo", "kani", "--features", feature, "-Z", "stubbing", "-Z", "unstable-options", "-Z", "concrete-playback",
           "--concrete-playback=print", "--harness", h, "--exact", "--output-format=terse", "--target-dir", tgt]
    rc, s, to = run(cmd, os.path.join(V, crate), min(left() - 90, 300), dict(ENV, RUSTFLAGS=HOOKFLAGS),
                    os.path.join(OUT, "playback.log"))
    out = []
    for blk in re.findall(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", s, re.S):
        vals = [bytes(int(x) for x in v.split(",") if x.strip()).hex() for v in re.findall(r"vec!\[([^\]]*)\]", blk)]
        out.append(",".join(vals))
    return out


def decide_failed(crate, feature, h, r, conf):
    """A harness that is not SUCCESS: violation with input, violation without, or undecided."""
    real = [c for c in r["bad"] if c["status"] == "Failure" and not NOT_A_BUG.search(c["description"])]
    desc = "; ".join(sorted({c["description"].strip('"') for c in real}))[:300]
    exe = native(crate, feature)
    if real and exe:
        for vals in counterexamples(crate, feature, h):
            k, o = replay_native(exe, h, vals)
            if k == "fail":
                return violation(h, desc, dict(values=vals, observed=o, runner=exe,
                                               how=f"{V}/bin/replay.sh <this file>",
                                               location=[f'{c["location"].get("file")}:{c["location"].get("line")}' for c in real][:5]))
    if exe:
        f = search_native(exe, h, min(conf.get("search", 20), left() - 20))
        if f:
            return violation(h, desc or "contract fails on the real code", dict(values=f[0], observed=f[1], runner=exe,
                             how=f"{V}/bin/replay.sh <this file>", note="found by running the contract on the real code"))
    if real and h.split("::")[-1] not in conf.get("float_approx", ()):
        return violation(h, desc, dict(values=None, verifier_output=open(os.path.join(OUT, "kani.log")).read()[-4000:],
                                       failed_checks=real[:10]))
    undecided.append(f"{h}: {r['exit'] or r['status']} {'; '.join(sorted({c['description'] for c in r['bad']}))[:200]}")


def run_executed(crate, feature, conf):
    """contracts on functions beyond the back end: executed on the real code, fixed bound, never counted as proved"""
    exe = native(crate, feature)
    if not exe:
        undecided.append(f"{crate}/{feature}: the executed contracts do not build against this source")
        return []
    hs = [l.split()[1] for l in subprocess.run([exe, "list"], env=ENV, capture_output=True, text=True).stdout.splitlines()
          if l.startswith("executed ") and (not conf.get("only") or l.split("::")[-1] in conf["only"])]
    cases = conf.get("cases", 4000) * (1 if TIER == "quick" else 25)
    secs = 20 if TIER == "quick" else 300

    def one(h):
        try:
            return h, subprocess.run([exe, "run", h, str(cases), str(secs), str(SEED)], env=ENV, capture_output=True, text=True, timeout=secs + 60)
        except subprocess.TimeoutExpired:
            return h, None
    out = []
    with ThreadPoolExecutor(4) as ex:
        for h, r in ex.map(one, hs):
            short = h.split("::")[-1]
            if r is None:
                undecided.append(f"{h}: executed contract did not finish")
                continue
            m = re.search(r"SEARCH-FAIL n=(\d+) ok=(\d+) values=(\S*) msg=(.*)", r.stdout)
            k = re.search(r"RUN-OK n=(\d+) ok=(\d+)", r.stdout)
            if m:
                violation(h, m.group(4)[:300], dict(values=m.group(3), observed=m.group(4), runner=exe, how=f"{V}/bin/replay.sh <this file>"))
            elif r.returncode < 0:
                violation(h, f"killed by signal {-r.returncode}", dict(values="", observed=r.stderr[-1000:], runner=exe))
            elif k:
                out.append(dict(contract=short, cases=int(k.group(2)), generated=int(k.group(1))))
                log(f"  {h}: held on {k.group(2)} generated cases [executed, bounded]")
            else:
                undecided.append(f"{h}: executed contract gave no answer: {r.stdout[-200:]} {r.stderr[-200:]}")
    return out


def real_vcs(crate, feature, cov, proofs):
    """verification conditions over the reals: the real generic code run on symbolic terms, discharged by realvc.py"""
    exe = native(crate, feature)
    if not exe:
        undecided.append("real-arithmetic obligations: the symbolic runner does not build against this source")
        return
    t = time.time()
    try:
        g = subprocess.run([exe, "vc"], env=ENV, capture_output=True, text=True, timeout=120)
        d = subprocess.run(["python3-vt", os.path.join(V, "bin", "realvc.py")], input=g.stdout, env=ENV, capture_output=True, text=True,
                           timeout=max(30, min(left() - 60, 400)))
        r = json.loads(d.stdout)
    except (subprocess.TimeoutExpired, ValueError) as e:
        undecided.append(f"real-arithmetic obligations: {e!r}"[:300])
        return
    if g.returncode:
        undecided.append("real-arithmetic obligations: the code left the symbolic fragment: " + (g.stderr.strip().splitlines() or [""])[-1][:200])
        if not r["total"]:
            return
    if not r["total"]:
        undecided.append("real-arithmetic obligations: none was generated")
    cov["obligations"] += r["total"]
    cov["discharged"] += r["discharged"]
    proofs.append(dict(harness="real-arithmetic conditions", status="discharged" if r["discharged"] == r["total"] else "open",
                       obligations=r["total"], by_normal_form=r["discharged"] - r["by_z3"], by_z3=r["by_z3"], wall_s=round(time.time() - t, 1)))
    log(f"  real-arithmetic conditions: {r['discharged']}/{r['total']} discharged ({time.time()-t:.1f}s)")
    for u in r["undecided"][:10]:
        undecided.append("real: " + u)
    if r["refuted"]:
        log("  refuted: " + "; ".join(r["refuted"][:8]))
        if any(w for w in violations):
            return  # an executed contract already gave a failing input for it
        hs = [l.split()[-1] for l in subprocess.run([exe, "list"], env=ENV, capture_output=True, text=True).stdout.splitlines()]
        for h in hs:
            f = search_native(exe, h, min(10, left() - 20))
            if f:
                return violation(r["refuted"][0], "refuted over the reals: " + "; ".join(r["refuted"][:5]), dict(values=f[0], observed=f[1], runner=exe, harness=h, how=f"{V}/bin/replay.sh <this file>"))
        violation(r["refuted"][0], "refuted over the reals: " + "; ".join(r["refuted"][:5]), dict(values=None, verifier_output=d.stdout[-4000:]))


def stand_in(crate, feature, why):
    """the deductive back end could not be run on this source: labelled stand-in, contracts executed on the real code"""
    exe = native(crate, feature)
    if not exe:
        undecided.append(f"{crate}/{feature}: {why}; and the contracts do not build natively either")
        return
    o = [h for h in subprocess.run([exe, "list"], env=ENV, capture_output=True, text=True).stdout.splitlines() if " " not in h]
    undecided.append(f"{crate}/{feature}: {why}; contracts executed on {len(o)} harnesses instead (bounded)")
    for h in o:
        f = search_native(exe, h, min(15, (left() - 30) / max(1, len(o))))
        if f:
            violation(h, "contract fails on the real code", dict(values=f[0], observed=f[1], runner=exe))


def main():
    cov = dict(obligations=0, discharged=0, checker_cmd=f"python3 bin/check.py {PID}", trusted_base=[])
    fns, proofs, bnd, solver = P.get("functions", []), [], [], 0.0
    known = [l for l in open(os.path.join(V, "known-findings.txt")).read().splitlines()
             if l.startswith(f"finding: property={PID} ")] if os.path.exists(os.path.join(V, "known-findings.txt")) else []
    pre = [threading.Thread(target=native, args=(c["crate"], c["feature"]), daemon=True) for c in P.get("kani", [])]
    for t in pre:
        t.start()
    executed = []
    for conf in P.get("kani", []):
        crate, feature = conf["crate"], conf["feature"]
        bounded = conf.get("bounded", {})
        res, err = (None, None) if conf.get("executed_only") else kani(crate, feature, None, conf)
        executed += run_executed(crate, feature, conf)
        if conf.get("executed_only"):
            continue
        if err or not res:
            stand_in(crate, feature, err or "no harness was generated")
            continue
        for h, r in sorted(res.items()):
            short = h.split("::")[-1]
            p = r["p"]
            tot = (p.get("total_properties") or 0)
            covers = (p.get("satisfied") or 0) + (p.get("unsatisfiable") or 0)
            vac = (p.get("unsatisfiable") or 0)
            ok = r["status"] == "Success" and not vac and tot > 0
            ob = max(0, tot - covers)
            done = (p.get("passed") or 0) + (p.get("unreachable") or 0) - (p.get("satisfied") or 0) if ok else 0
            done = min(ob, max(0, done)) if not ok else ob
            solver += r["solver_s"] or 0
            e = dict(harness=short, status="discharged" if ok else r["status"], obligations=ob, reach_checks=p.get("satisfied") or 0,
                     wall_s=round(r["secs"], 1))
            if short in bounded:
                bnd.append(dict(e, bound=bounded[short]))
            else:
                proofs.append(e)
                cov["obligations"] += ob
                cov["discharged"] += done
            log(f"  {h}: {e['status']} ({ob} obligations, {r['secs']:.1f}s)" + (f" [bounded: {bounded[short]}]" if short in bounded else ""))
            if vac and r["status"] == "Success":
                undecided.append(f"{h}: a reachability check is unsatisfiable, the contract may be vacuous on this source")
                exe = native(crate, feature)
                f = exe and search_native(exe, h, min(20, left() - 20))
                if f:
                    violation(h, "contract fails on the real code", dict(values=f[0], observed=f[1], runner=exe))
            elif r["status"] != "Success":
                decide_failed(crate, feature, h, r, conf)
    for conf in P.get("kani", []):
        if conf.get("real"):
            real_vcs(conf["crate"], conf["feature"], cov, proofs)
    vres = []
    if P.get("verus"):
        import vx
        for mod in P["verus"]:
            r = vx.verify(mod, OUT, min(left() - 60, 300))
            vres.append({k: r[k] for k in ("module", "status", "verified", "errors", "functions", "secs", "detail", "assumed") if k in r})
            log(f"  verus {mod}: {r['status']} ({r['verified']} functions/lemmas verified, {r['errors']} errors, {r['secs']:.1f}s)")
            if r["status"] == "verified":
                cov["obligations"] += r["verified"]
                cov["discharged"] += r["verified"]
                fns = fns + [f for f in r["functions"] if f not in fns]
                continue
            cov["obligations"] += r["verified"] + max(1, r["errors"])
            cov["discharged"] += r["verified"]
            # failed obligation or undecided: look for a concrete failing input on the real code
            found = bool(violations)  # a failing input is already reported
            if found:
                log(f"failed obligation: verus:{mod}: {r.get('detail', '')[:300]}")
            for (crate, feature, h) in [] if found else P.get("verus_replay", {}).get(mod, []):
                exe = native(crate, feature)
                f = exe and search_native(exe, h, min(25, left() - 30))
                if f:
                    violation(f"verus:{mod}", r.get("detail", "")[:300], dict(values=f[0], observed=f[1], runner=exe, harness=h,
                                                                             how=f"{V}/bin/replay.sh <this file>"))
                    found = True
                    break
            if found:
                continue
            if r["status"] == "failed":
                violation(f"verus:{mod}", r.get("detail", "")[:300], dict(values=None, verifier_output=r.get("output", "")[-6000:]))
            else:
                undecided.append(f"verus {mod}: {r['status']}: {r.get('detail', '')[:300]}")
    for l in known:
        log(f"KNOWN-FINDING: property={PID} " + l.split(" ", 2)[2])
    vtrust = [a for v in vres for a in v.get("assumed", [])] + (["Verus + vstd + z3", "the extraction of bin/vx.py (listed rewrites only)"] if vres else [])
    cov["trusted_base"] = sorted(set(P.get("trusted", []) + COMMON_TRUSTED + vtrust))
    cov.update(functions_under_contract=fns, executed_bounded_not_counted_as_proved=executed, complete_harnesses=proofs, bounded_not_counted_as_proved=bnd, verus=vres,
               solver_s=round(solver, 2), undecided=undecided, notes=notes)
    if not cov["obligations"]:
        cov["explanation"] = "no complete proof obligation ran; see bounded_not_counted_as_proved / undecided"
    level = P.get("level", "proof")
    if level == "proof" and (undecided or not cov["obligations"]):
        level = "other"
    if level == "other":
        cov.setdefault("explanation", P.get("level_note", "") + (" UNDECIDED parts: " + "; ".join(undecided) if undecided else ""))
    ev = dict(property=PID, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=cov,
              assumptions=P.get("assumptions", []), wall_s=round(time.time() - T0, 1), violations=len(violations))
    json.dump(ev, open(os.path.join(V, "evidence", PID + ".json"), "w"), indent=1)
    for u in undecided:
        log("UNDECIDED (not an alarm): " + u)
    if violations:
        sys.exit(1)
    log(f"{PID}: held on everything explored; {cov['discharged']}/{cov['obligations']} obligations discharged, {len(bnd)} bounded harnesses, {time.time()-T0:.0f}s")
    sys.exit(0)


COMMON_TRUSTED = ["Kani 0.68.0 / CBMC 6.11.0 (MIR-to-GOTO translation, SAT back end)", "rustc front end",
                  "memory allocation succeeds"]

if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except Exception as e:  # an error of the machinery is never an alarm
        import traceback
        traceback.print_exc()
        log(f"INTERNAL: {e!r}")
        sys.exit(1 if violations else 0)
