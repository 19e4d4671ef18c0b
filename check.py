#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

1. Extracts the functions the property depends on from /repo's current source, injects the
   contracts of vx/specs, and has Verus discharge every obligation.
2. Compiles the current tree with the guarded hook and runs the same contracts on the compiled
   functions: the replay for a failed obligation, and the stand-in for a function that a change
   has taken outside the verifier's reach.
exit 0: held on everything; exit 1 + VIOLATION line otherwise; 2: neither step could decide anything."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vx"))
import props, verus

REPO = os.environ.get("VX_REPO", "/repo")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           RUSTC_WRAPPER="", RUSTUP_AUTO_INSTALL="0", CARGO_INCREMENTAL="0")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")


def native_build(pid, target):
    """the harness crate, compiled against the current tree; None and the reason when it does not compile"""
    src = os.path.join(target, "crate")
    shutil.rmtree(src, ignore_errors=True)
    os.makedirs(os.path.join(src, "src"))
    n = os.path.join(HERE, "native")
    toml = open(os.path.join(n, "Cargo.toml")).read().replace("../../repo", REPO)
    open(os.path.join(src, "Cargo.toml"), "w").write(toml)
    shutil.copy(os.path.join(n, "src", "main.rs"), os.path.join(src, "src", "main.rs"))
    for lock in (os.path.join(REPO, "Cargo.lock"), "/opt/vp/Cargo.lock.fetched"):
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(src, "Cargo.lock")); break
    env = dict(ENV, RUSTFLAGS=f'-A warnings --cfg oxyroot_verif --cfg vp="{pid}"', OXYROOT_VERIF_DIR=os.path.join(n, "hook"), CARGO_TARGET_DIR=os.path.join(target, "t"))
    r = subprocess.run(["cargo", "build", "--offline"], cwd=src, env=env, capture_output=True, text=True)
    exe = os.path.join(target, "t", "debug", "vxnative")
    if r.returncode or not os.path.exists(exe):
        return None, "\n".join(l for l in r.stderr.split("\n") if l.strip())[-1500:]
    return exe, ""


def native_run(exe, pid, seed, scale, case=None, timeout=300, work=None):
    t0 = time.time()
    try:
        r = subprocess.run([exe, pid, str(seed), str(scale)] + (list(map(str, case)) if case else []), capture_output=True, text=True, timeout=timeout, cwd=work,
                           env=dict(os.environ, VX_SCRATCH=work or ""))
    except subprocess.TimeoutExpired:
        return dict(evaluations=0, distinct=0, fails=[], per_case={}, samples=[], died=f"no end within {timeout} s", wall=timeout)
    for ln in r.stdout.split("\n"):
        if ln.startswith("VXRESULT "):
            d = json.loads(ln[9:]); d["wall"] = time.time() - t0
            return d
    return dict(evaluations=0, distinct=0, fails=[], per_case={}, samples=[], died=f"ended with {r.returncode}: {(r.stderr or r.stdout)[-300:]}", last=last_case(r.stdout), wall=time.time() - t0)


def last_case(s):
    l = [x for x in s.split("\n") if x.startswith("VXCASE ")]
    return l[-1][7:] if l else None


def known(pid):
    """known-findings file: 'finding: property=<id> case=<harness case> match=<text of the message> :: <what fails>'"""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\w+) case=\"([^\"]+)\" input=\"([^\"]*)\" :: (.*)", ln.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    pid = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    elif os.environ.get("VERIF_TIER") == "thorough": tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = props.PROPS[pid]
    work = tempfile.mkdtemp(prefix=f"vx-{pid}-")
    try:
        return decide(pid, P, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, P, tier, seed, t0, work):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    thorough = tier == "thorough"
    ex = cf.ThreadPoolExecutor(4)
    fb = ex.submit(native_build, pid, work) if P.get("native") else None
    units, probes, seeds = [], [], []
    for u in P["units"]:
        units.append(verus.Unit(REPO, u, work).go())
    if thorough:
        for u in P["units"]:
            for pr in (True, "end"):
                wp = os.path.join(work, f"probe{pr}"); os.makedirs(wp, exist_ok=True)
                probes.append(verus.Unit(REPO, u, wp, probe=pr).go())
            for s in (seed, seed + 1):
                ws = os.path.join(work, f"s{s}"); os.makedirs(ws, exist_ok=True)
                seeds.append(verus.Unit(REPO, u, ws, rlimit=40, seed=s).go())
    fns, lemmas, failed, undecided, trusted, notes, assumptions = {}, {}, [], [], [], [], []
    smt = 0; whole_ok = True
    for U in units:
        pats = [re.compile("(?:" + p + r")\Z") for p in P["units"][U.name]]
        notes += U.notes; smt += U.smt_ms
        if U.status != "ok":
            whole_ok = False
            notes.append(f"unit {U.name} could not be checked ({U.status}): every function of it is bounded by the executable contracts only")
            for w, l in getattr(U, "bad", {}).items():
                pass
            continue
        assumptions += [f"{U.name}: {a}" for a in U.assumptions()]
        used = re.findall(r"^\s*//@rewrite (.*)", open(os.path.join(verus.SPECS, U.name + ".rs")).read(), re.M)
        hit = 0
        for fid, v in U.fns.items():
            if any(p.match(fid) for p in pats):
                hit += 1
                fns[f"{U.name}:{fid}"] = dict(v=v, **{k: U.build.fns[fid][k] for k in ("file", "line") if fid in U.build.fns})
                if v == "failed": failed.append((U, fid))
                elif v == "undecided": undecided.append(fid)
                elif v == "trusted": trusted.append(f"{fid}: {U.build.fns[fid]['why']}")
        for n, v in U.lemmas.items():
            if any(p.match(n) for p in pats):
                lemmas[f"{U.name}:{n}"] = v
                if v == "failed": failed.append((U, n))
                elif v == "undecided": undecided.append(n)
        unassigned = [n for n, v in U.lemmas.items() if v == "failed" and not any(re.match("(?:" + p + r")\Z", n) for q in props.PROPS.values() for p in q["units"].get(U.name, []))]
        for n in unassigned: failed.append((U, n))
        if not hit: notes.append(f"{U.name}: none of the property's functions is in the unit any more"); whole_ok = False
    exe, why = fb.result() if fb else (None, "no executable contracts")
    nat = None
    scale = 0.0
    if exe:
        scale = P.get("scale", 1.0) * (20 if thorough else (4 if failed or undecided or not whole_ok else 1))
        nat = native_run(exe, pid, seed, scale, timeout=500 if thorough else 200, work=work)
        if nat.get("died") and scale > 1:
            n2 = native_run(exe, pid, seed, 1.0, timeout=200, work=work)
            notes.append("executable contracts: " + nat["died"] + "; rerun at scale 1")
            if not n2.get("died"): nat = n2
    else:
        notes.append("executable contracts not built: " + why[-400:])
    viol = []
    kf = known(pid); seen = []
    cmd = lambda c, k: f"python3 {HERE}/check.py {pid} --replay '{c}' {k}"
    if nat:
        for f in nat["fails"]:
            hit = next((x for x in kf if x[0] == f["case"] and (x[1] in f["input"])), None)
            if hit:
                if hit not in seen: seen.append(hit)
                continue
            viol.append(("input", f))
        if nat.get("died"):
            viol.append(("input", dict(case="(process)", k=0, msg="the executable contracts ended abnormally: " + nat["died"], input=nat.get("last") or "")))
    for x in seen: print(f"KNOWN-FINDING: property={pid} {x[2]}")
    lines = []
    fo = [dict(obligation=n, unit=U.name, verifier=U.diags.get(n, [])[:4]) for U, n in failed]
    if any(v[0] == "input" for v in viol):
        p = os.path.join(HERE, "replays", f"{pid}.json")
        json.dump(dict(property=pid, kind="failing input on the real code", seed=seed, scale=scale, cases=[v[1] for v in viol], failed_obligations=fo,
                       replay=[cmd(v[1]["case"], v[1]["k"]) for v in viol]), open(p, "w"), indent=1)
        for v in viol[:3]: print(f"  {v[1]['case']} #{v[1]['k']}: {v[1]['msg']}\n    input: {v[1]['input'][:300]}")
        for o in fo[:5]: print(f"  failed obligation: {o['obligation']}")
        lines.append(f"VIOLATION property={pid} replay={p}")
    elif failed:
        p = os.path.join(HERE, "replays", f"{pid}.json")
        json.dump(dict(property=pid, kind="failed obligation, no failing input found", failed_obligations=fo), open(p, "w"), indent=1)
        for o in fo[:5]: print(f"  failed obligation: {o['obligation']}\n" + "".join(o["verifier"][:1])[:1200])
        lines.append(f"VIOLATION property={pid} replay={p} no-failing-input-found")
    vac = None
    if thorough and probes:
        # every probe assert(false) at the start of a body has to be refuted, or the contract is vacuous
        # a body is probed when its requires clause is satisfiable: the probe assert(false) must fail
        mute = [f"{U.name}:{fid} ({'at its end' if U.probe == 'end' else 'at its start'})" for U in probes if U.status == "ok" for fid, v in U.fns.items() if v == "proved" and f"{U.name}:{fid}" in fns]
        vac = dict(probed=sum(1 for U in probes if U.status == "ok" for fid in U.fns if f"{U.name}:{fid}" in fns), vacuous=mute)
        for U in probes:
            if U.status != "ok": notes.append(f"probe run of {U.name}: {U.status}")
    stab = [dict(unit=U.name, seed=U.seed, verified=U.verified, errors=U.errors, smt_ms=U.smt_ms) for U in seeds]
    ob = len(fns) - len(trusted) + len(lemmas)
    dis = sum(1 for f in fns.values() if f["v"] == "proved") + sum(1 for v in lemmas.values() if v == "proved")
    if not whole_ok and not fns and not (nat and not nat.get("died")):
        print("neither the verifier nor the executable contracts could run:", *notes, sep="\n  ")
        rc = 2
    else:
        rc = 1 if lines else 0
    tb = ["Verus 0.2026.09.13 and Z3 4.12 (as shipped with it)", "the extractor vx/extract.py: comments and logging macro statements are dropped, deep crate paths shortened, from/to_be_bytes called through shims; rewrites are listed in the unit template"]
    tb += [f"trusted body {t}" for t in trusted] + assumptions
    ev = dict(property=pid, tier=tier, seed=seed, level="proof",
              coverage=dict(
                  obligations=ob, discharged=dis, checker_cmd=f"python3 {HERE}/check.py {pid} --tier {tier}", trusted_base=tb,
                  evaluations=nat["evaluations"] if nat else 0, distinct_nontrivial=nat["distinct"] if nat else 0,
                  rule="one evaluation = the executable form of one contract on one generated input, run on the compiled code of the current tree; distinct = distinct input descriptions",
                  samples=nat["samples"] if nat else [],
                  explanation=("Deciding step: Verus accepts every obligation of the functions listed under functions_under_contract, extracted from the current source in this run; each obligation here is one function body against its contract, or one lemma, for all inputs. "
                               "The evaluations are not part of the proof: they look for a failing input when an obligation fails and bound the functions listed as undecided or trusted."),
                  functions_under_contract=fns, lemmas=lemmas, undecided_bounded_only=undecided, failed=[n for _, n in failed],
                  backend="Verus (Z3)", smt_ms=smt, solver_queries=sum(U.queries for U in units), unit_verified=sum(U.verified for U in units),
                  rewrites={U.name: getattr(getattr(U, "build", None), "rewrites_used", {}) for U in units},
                  bounded=P.get("bounded", []), per_case=nat["per_case"] if nat else {}, vacuity=vac, seed_stability=stab, notes=notes),
              assumptions=assumptions + P.get("assume", []), wall_s=round(time.time() - t0, 1), violations=len(lines))
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    print(f"{pid} {tier}: {dis}/{ob} obligations discharged ({len(fns)} functions, {len(lemmas)} lemmas; {smt} ms solver), "
          f"{len(trusted)} trusted, {len(undecided)} undecided; {nat['evaluations'] if nat else 0} executable checks; {round(time.time() - t0)} s")
    for n in notes[:8]: print("  note:", n[:300])
    if vac and vac["vacuous"]: print("  vacuous contracts:", vac["vacuous"])
    for l in lines: print(l)
    return rc


def replay():
    pid, case, k = sys.argv[1], sys.argv[3], sys.argv[4]
    work = tempfile.mkdtemp(prefix=f"vx-{pid}-")
    try:
        exe, why = native_build(pid, work)
        if not exe: print(why); return 2
        r = native_run(exe, pid, int(os.environ.get("VERIF_SEED", "1") or 1), 1.0, (case, k), work=work)
        print(json.dumps(r, indent=1))
        return 1 if r["fails"] or r.get("died") else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(replay() if "--replay" in sys.argv else main())
