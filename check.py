#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property on /repo's current tree (see DESIGN.md)."""
import sys, os, json, time, traceback, re
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from vf import work, checks, deduct, vx

def known_findings():
    r = []
    for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
        m = re.match(r"known: property=(\S+) input=(\S+) (.*)", l)
        if m: r.append(m.groups())
    return r

def main():
    pid = sys.argv[1]; th = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time()
    print("property %s, %s, seed %d" % (pid, "thorough" if th else "quick", seed), flush=True)
    if not th: vx.DEADLINE = t0 + 500
    # 1. deductive part: obligations from the current source
    ded = deduct.run(pid, th)
    for u in ded.units: print("  [%s] %s: %s%s" % (u.status, u.name, u.summary(), "" if u.status == "PROVED" else " -- " + u.reason[:200]), flush=True)
    # 2. the real code run on cases (supplies failing inputs; stands in, bounded, where the verifier does not reach)
    out = checks.Out(); err = None
    try: checks.CHECKS[pid](out, seed, th)
    except work.BuildError as e: err = str(e)
    if err and work.repo_compiles():       # the harness no longer fits the code, which is not the code's fault
        print("  bounded part not run, the harness does not fit: %s" % err[:2000], flush=True); out.rules.append("not run: " + err[:300]); err = None
    elif err: out.bad("/repo does not build: " + err[:3000], "build")
    # 3. verdict
    kf = [k for k in known_findings() if k[0] == pid]; new = []
    hit = {}
    for v in out.viol:
        k = [x for x in kf if x[1] == v["key"]]
        if k: hit[k[0][1]] = k[0][2]
        else: new.append(v)
    for i, w in sorted(hit.items()): print("KNOWN-FINDING: property=%s input=%s %s" % (pid, i, w))
    failed = [u for u in ded.units if u.status == "FAILED"]
    verdict = 0; rp = os.path.join(HERE, "target", "replay", pid + ".json"); os.makedirs(os.path.dirname(rp), exist_ok=True)
    if new:
        verdict = 1
        json.dump(dict(property=pid, violations=new[:20], failed_obligations=[u.report() for u in failed]), open(rp, "w"), indent=1, ensure_ascii=False)
        for v in new[:5]: print("  violated: [%s] %s" % (v["key"], v["what"][:400]))
        for u in failed: print("  failed obligation: %s: %s" % (u.name, "; ".join(u.failed)[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    elif failed:
        verdict = 1
        json.dump(dict(property=pid, violations=[], failed_obligations=[u.report() for u in failed]), open(rp, "w"), indent=1, ensure_ascii=False)
        for u in failed: print("  failed obligation: %s: %s" % (u.name, "; ".join(u.failed)[:600]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
    evidence(pid, th, seed, ded, out, new, failed, hit, time.time() - t0)
    print("%s: %s (%.1f s; bounded part: %s)" % (pid, "violated" if verdict else "holds", time.time() - t0, out.stats), flush=True)
    return verdict

def evidence(pid, th, seed, ded, out, new, failed, hit, wall):
    ev = sum(out.stats.get(k, 0) for k in ("evaluations", "histories", "values", "docs", "mutants", "perms", "conversions", "faults"))
    cov = dict(evaluations=ev, distinct_nontrivial=min(ev, out.nontrivial), rule=" | ".join(out.rules) or "see DESIGN.md", samples=out.samples[:3] or ["none"], counts=out.stats)
    if ded.units:
        proved = [u for u in ded.units if u.status == "PROVED"]
        cov.update(obligations=sum(u.obligations for u in ded.units), discharged=sum(u.discharged for u in ded.units), checker_cmd=ded.cmd, trusted_base=sorted({t for u in ded.units for t in u.trusted}),
                   functions_under_contract=sorted({f for u in proved for f in u.functions}), solver_ms=sum(u.ms for u in ded.units), backend="Verus " + deduct.version() + " / Z3",
                   units=[u.report() for u in ded.units], bounded_standins=[dict(unit=u.name, reason=u.reason) for u in ded.units if u.status == "OUT-OF-REACH"] + ded.bounded_only)
    if ded.level == "translation_validation":
        cov.update(programs=ded.programs, disagreements_checked=cov.get("obligations", 0))
    d = dict(property=pid, tier="thorough" if th else "quick", seed=seed, level=ded.level, coverage=cov, assumptions=ded.assumptions,
             wall_s=round(wall, 1), violations=len(new) + len(failed), known_findings=sorted(hit))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(d, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, ensure_ascii=False)

if __name__ == "__main__": sys.exit(main())
