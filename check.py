#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current tree with dsym (symbolic execution + Z3).
Exit 0: held for everything explored; 1: a reproduced violation; 2: the check itself could not decide."""
import sys, os, json, time, subprocess, shutil, re, threading, concurrent.futures
import dsymlib as L
from checks import CHECKS
V = L.VERIF

def main():
    pid = sys.argv[1]; t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier not in ("quick", "thorough"): tier = "quick"
    c = CHECKS[pid]
    only = sys.argv[2:]
    ents = [e for e in c["entries"] if (tier == "thorough" or not e.get("thorough")) and (not only or e["e"] in only)]
    work = os.environ.get("CHECK_WORK") or "/tmp/dsym_%s_%d" % (pid, os.getpid())
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    rdir = V + "/build/replay/" + pid; shutil.rmtree(rdir, ignore_errors=True)
    rc = 2
    try:
        if not os.path.exists(L.DSYM):
            r = subprocess.run(["make", "-C", V + "/engine"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: raise L.BuildError(r.stdout[-2000:])
        rc = run(pid, c, ents, tier, seed, work, rdir, t0)
    except L.BuildError as e:
        print("CHECK-ERROR property=%s %s" % (pid, str(e)[-3000:]))
    finally:
        if not os.environ.get("CHECK_WORK"): shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def known_findings(pid):
    p = V + "/known_findings.json"
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == pid and f.get("status") == "known"]

def run(pid, c, ents, tier, seed, work, rdir, t0):
    names = [e["e"] for e in ents]; harness = c["harness"]
    extra = ["-DTHOROUGH=%d" % (tier == "thorough")]
    budget = 700.0 if tier == "quick" else 6 * 3600.0
    prog = L.build_ir(work, harness, names, extra)
    nat = {}
    def natb():
        try: nat.update(L.build_native(work, harness, names, extra=extra))
        except L.BuildError as e: nat["error"] = str(e)
    th = threading.Thread(target=natb); th.start()
    kf = known_findings(pid); seen = {}
    res, viol, notes, validated, sampled = [], None, [], 0, []
    def work_entry(e):
        nts = []
        left = budget - (time.time() - t0)
        if left < 5: return None, None, ["%s: not started, time budget used up" % e["e"]], 0, []
        dl = min(left, e.get("dl", 150) if tier == "quick" else e.get("tdl", 1800))
        out = work + "/out_" + e["e"]; unconf = []; vio = None; nval = 0; smp = []
        klabels = [f["label"] for f in kf if f.get("entry") in (None, e["e"])]
        while True:
            r = L.dsym(prog, e["e"], out, dl, klabels + [u for u in unconf], ["--seed", str(seed), "--maxinst", str(e.get("maxinst", 400000000))])
            th.join()
            if "error" in nat: raise L.BuildError(nat["error"])
            again = False
            for v in r["violations"]:
                if v["label"] in unconf: continue
                st, o = L.replay(nat[e["e"]], v["file"])
                ok = st.startswith("violated") or st.startswith("crash") or st == "timeout"
                if v["known"]:
                    f = [f for f in kf if f["label"] == v["label"]][0]
                    if ok: seen[f["label"]] = f
                    continue
                if ok:
                    os.makedirs(rdir, exist_ok=True)
                    rp = rdir + "/" + e["e"] + ".json"
                    json.dump({"property": pid, "harness": "harness/" + harness, "entry": e["e"], "assertion": v["label"], "where": v["where"], "inputs": open(v["file"]).read().split("\n"), "native_result": st, "native_output": o[-4000:]}, open(rp, "w"), indent=1)
                    vio = (e["e"], v, rp, st); break
                unconf.append(v["label"]); again = True
                nts.append("%s: solver counterexample for '%s' did not reproduce natively (%s); not reported" % (e["e"], v["label"], st))
            if vio or not again or len(unconf) > 5: break
        r["unconfirmed"] = unconf
        if not vio:
            # every sampled path: the real code, compiled natively, must behave exactly as the encoding predicted
            for i in range(len(r["samples"])):
                st, o = L.replay(nat[e["e"]], out + "/sample_%d.txt" % i)
                exp = open(out + "/sample_%d.out" % i).read().splitlines()
                got = [l[4:] for l in o.splitlines() if l.startswith("OUT ")]
                if st == "ok" and got == exp:
                    nval += 1
                    if len(smp) < 2: smp.append({"entry": e["e"], "inputs": r["samples"][i][:1200], "outputs": exp[:20]})
                else:
                    nts.append("%s: sample %d: native run disagrees with the encoding (%s) %s" % (e["e"], i, st, [x for x in zip(exp, got) if x[0] != x[1]][:2]))
                    r["disagree"] = 1
                    if os.environ.get("CHECK_WORK"): print(o[-1500:])
        return e, r, nts, nval, (vio, smp)
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("CHECK_JOBS", "7"))) as ex:
        fs = [ex.submit(work_entry, e) for e in ents]
        for f in fs:
            e, r, nts, nval, vs = f.result()
            notes += nts
            if not e: continue
            res.append((e, r)); validated += nval
            if vs[0] and not viol: viol = vs[0]
            sampled += vs[1]
    sampled = sampled[:8]
    th.join()
    evidence(pid, c, tier, seed, res, viol, notes, validated, sampled, seen, t0)
    for e, r in res:
        print("%-28s paths=%d forks=%d queries=%d (unsat %d) solver=%.1fs insts=%d wall=%.1fs%s" % (e["e"], r["paths"], r["forks"], r["queries"], r["unsat"], r["solver_s"], r["insts"], r["wall"], " INCOMPLETE: " + r["incmsg"] if r["incomplete"] else ""))
    for n in notes: print("NOTE " + n)
    for f in seen.values(): print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    if viol:
        print("violated assertion: %s (%s) in %s; native replay: %s" % (viol[1]["label"], viol[1]["where"], viol[0], viol[3]))
        print("VIOLATION property=%s replay=%s" % (pid, viol[2])); return 1
    bad = 0
    for e, r in res:
        if r.get("disagree") or r["unconfirmed"]: bad = 1
        need = e.get("covers", ["end"]); got = {x["label"] for x in r["covers"]}
        miss = [x for x in need if x not in got]
        if miss and not any(not v["known"] for v in r["violations"]): print("CHECK-ERROR property=%s %s: cover point(s) %s not reached%s" % (pid, e["e"], miss, " (incomplete: " + r["incmsg"] + ")" if r["incomplete"] else "")); bad = 1
        if r["incomplete"] and "deadline" not in r["incmsg"] and r["paths"] == 0: bad = 1
    if bad: return 2
    print("property %s held on everything explored: %d paths, %d solver queries, %d traces replayed natively, %.1fs" % (pid, sum(r["paths"] for _, r in res), sum(r["queries"] for _, r in res), validated, time.time() - t0))
    return 0

def evidence(pid, c, tier, seed, res, viol, notes, validated, sampled, seen, t0):
    fns = set()
    for _, r in res: fns |= {f for f in r["functions"] if not f.startswith(("rt_", "h_", "dsym_"))}
    S = lambda k: sum(r[k] for _, r in res)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
      "coverage": {
        "states": S("paths"), "transitions": S("insts"), "traces_validated_against_impl": validated, "samples": sampled,
        "explanation": "states = symbolic paths explored to their end (each stands for every input satisfying its path condition); transitions = IR instructions of the real code executed symbolically on them; traces_validated = sampled paths re-run by the natively compiled code with identical outputs",
        "forks": S("forks"), "paths_cut_by_assumption": S("paths_assume"), "queries": S("queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"), "queries_unknown": S("unknown"), "model_cache_hits": S("cachehits"), "one_byte_branch_queries_decided_by_evaluation": S("small_domain_queries"), "paths_confirmed_satisfiable_by_solver": S("paths_confirmed_sat"), "solver_s": round(S("solver_s"), 3),
        "assertions": [{"entry": e["e"], "label": a["label"], "reached": a["reached"], "proved_by_solver": a["proved"], "constant_true": a["trivial"], "violated": a["violated"]} for e, r in res for a in r["asserts"]],
        "entries": [{"entry": e["e"], "bounds": e.get("bounds", ""), "paths": r["paths"], "complete": not r["incomplete"], "why_incomplete": r["incmsg"], "wall_s": r["wall"], "covers": r["covers"]} for e, r in res],
        "functions_encoded": sorted(fns), "functions_encoded_count": len(fns),
        "exhaustive": all(not r["incomplete"] for _, r in res) and not viol,
        "known_findings_seen": sorted(seen), "notes": notes },
      "assumptions": c.get("assumptions", []) + COMMON,
      "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)

COMMON = ["operating-system calls, stdio, the C string library and zlib are replaced by the models in rt/rt.c (in-memory files, deterministic clock, zlib as a lossless codec)",
          "single-threaded execution; compiled from clang -O0 IR; IEEE floating point, x86-64 data layout; allocation succeeds",
          "claims hold within the bounds listed per entry; anything outside them is not claimed"]
main()
