#!/usr/bin/env python3
"""check.py <property> --tier quick|thorough : decides one property on /repo's current tree."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxlib as L
from jobs import JOBS
import concurrent.futures as cf

def demangle(names):
    if not names: return []
    f = shutil.which("llvm-cxxfilt-18") or shutil.which("c++filt")
    r = subprocess.run([f], input="\n".join(names), capture_output=True, text=True)
    return r.stdout.split("\n")[:len(names)]

def run_job(job, tier, lib, gen, work, sx, fifo, natobjs, opts):
    defs = dict(job.get("defs", {})); defs.update(job.get(tier, {}))
    name = job["name"]; w = f"{work}/{name}"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    res = {"job": name, "bounds": job.get("bounds", ""), "defs": defs}
    try: bc = L.link_harness(lib, gen, job["src"], defs, w)
    except L.BuildError as e: res["error"] = str(e); return res
    t = opts["time"]
    cmd = [sx, bc, "--out", w, "--time", str(job.get("time", {}).get(tier, t)), "--jobserver", fifo, "--samples", str(job.get("samples", 6)), "--max-viol", str(job.get("max_viol", 3)), "--mem", "2600", "--path-instrs", str(job.get("path_instrs", 12_000_000 if tier == "quick" else 30_000_000))]
    try: r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=float(cmd[5]) + 500)
    except subprocess.TimeoutExpired: res["error"] = "engine did not end"; return res
    res["rc"] = r.returncode; res["stderr"] = r.stderr[-3000:]
    try: res["r"] = json.load(open(f"{w}/result.json"))
    except Exception: res["error"] = f"engine failed rc={r.returncode}: {r.stderr[-1200:]}"; return res
    traces = sorted(f for f in os.listdir(w) if f.startswith("viol_"))
    samples = sorted(f for f in os.listdir(w) if f.startswith("sample_"))
    res["violations"] = []; res["validated"] = 0; res["mismatch"] = []; res["sample_text"] = []
    if job.get("atomics"):
        try: exe = L.build_atomic_native(gen, job["src"], defs) if traces or samples else None
        except L.BuildError as e: exe = None; res["native_error"] = str(e)
    elif job.get("native", True) and natobjs is not None:
        try: exe = L.link_native(natobjs, gen, job["src"], defs, w)
        except L.BuildError as e: exe = None; res["native_error"] = str(e)
    else: exe = None
    for f in samples:
        txt = open(f"{w}/{f}").read()
        if len(res["sample_text"]) < 2: res["sample_text"].append({"job": name, "inputs": [l for l in txt.splitlines() if l.startswith(("sym", "pre", "blk", "obs"))][:40]})
        if exe:
            c, t = L.run_native(exe, f"{w}/{f}", sched=job.get("sched", False))
            if c == "ok": res["validated"] += 1
            else: res["mismatch"].append(f"{f}: {c}: {t[-400:]}")
    for f in traces:
        head = open(f"{w}/{f}").readline()[2:].strip()
        v = {"trace": f"{w}/{f}", "what": head, "stack": [l[1:].strip() for l in open(f"{w}/{f}") if l.startswith("#")][1:]}
        if exe:
            c, t = L.run_native(exe, v["trace"], timeout=30, sched=job.get("sched", False))
            v["native"] = c; v["native_text"] = t
            v["confirmed"] = c in ("violation", "hang", "crash") or (c == "mismatch")
        else: v["native"] = "not replayed"; v["confirmed"] = bool(job.get("engine_only"))
        if not v["confirmed"] and (job.get("accept_engine") or head.startswith("race:")): v["confirmed"] = True # an unordered pair of accesses has no symptom of its own in a native run
        res["violations"].append(v)
    if exe and not job.get("sched") and not res["violations"]: # paths that were not followed to their end: the real code has the last word
        for f in sorted(f for f in os.listdir(w) if f.startswith("suspect_")):
            head = open(f"{w}/{f}").readline()[2:].strip(); c, t = L.run_native(exe, f"{w}/{f}", timeout=40)
            if c in ("violation", "hang", "crash"): res["violations"].append({"trace": f"{w}/{f}", "what": head, "stack": [l[1:].strip() for l in open(f"{w}/{f}") if l.startswith("#")][1:], "native": c, "native_text": t, "confirmed": True})
    return res

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"]); ap.add_argument("--only"); ap.add_argument("-v", action="store_true"); ap.add_argument("--keep"); ap.add_argument("--time", type=float)
    a = ap.parse_args(); t0 = time.time(); pid = a.prop
    spec = JOBS[pid]; tier = a.tier
    jobs = [j for j in spec["jobs"] if not (j.get("tier") and j["tier"] != tier) and (not a.only or re.search(a.only, j["name"]))]
    os.makedirs(L.CACHE, exist_ok=True); os.makedirs(f"{L.VERIF}/evidence", exist_ok=True)
    work = a.keep or tempfile.mkdtemp(prefix=f"sx-{pid}-"); os.makedirs(work, exist_ok=True)
    rc = 0
    try:
        try:
            gen = L.generate(); sx = L.engine(); lib = L.build_bc_lib(gen)
            natobjs = L.build_nat_lib(gen) if any(j.get("native", True) for j in jobs) else None
        except L.BuildError as e: print(f"ERROR: {e}"); sys.exit(2)
        tb = time.time() - t0
        fifo = f"{work}/js"; os.path.exists(fifo) or os.mkfifo(fifo); fd = os.open(fifo, os.O_RDWR); os.write(fd, b"x" * L.NCPU)
        opts = {"time": a.time or (spec.get("time", {}).get(tier) or (200 if tier == "quick" else 1500))}
        with cf.ThreadPoolExecutor(16) as ex:
            results = list(ex.map(lambda j: run_job(j, tier, lib, gen, work, sx, fifo, natobjs, opts), jobs))
        os.close(fd)
        known = []
        try: known = [k for k in json.load(open(f"{L.VERIF}/known_findings.json"))["findings"] if k["property"] == pid and k.get("status") == "known"]
        except FileNotFoundError: pass
        rdir = f"{L.VERIF}/evidence/replay/{pid}"; shutil.rmtree(rdir, ignore_errors=True)
        viol, hits, notes, errors = [], {}, [], []
        for j, r in zip(jobs, results):
            if "error" in r: errors.append(f"{r['job']}: {r['error']}"); continue
            for v in r["violations"]:
                k = next((k for k in known if k["job"] == r["job"] and re.search(k["match"], v["what"]) and (not k.get("at") or any(re.search(k["at"], s) for s in v["stack"][:k.get("depth", 3)]))), None)
                if k: hits[k["id"]] = (k, v); continue
                if not v["confirmed"]: notes.append(f"{r['job']}: unconfirmed ({v['native']}): {v['what']} | {v.get('native_text','')[:600]}"); continue
                os.makedirs(rdir, exist_ok=True); dst = f"{rdir}/{r['job']}_{os.path.basename(v['trace'])}"; shutil.copy(v["trace"], dst)
                with open(dst, "a") as f: f.write(f"# job {r['job']} source {j['src']} defs {json.dumps(r['defs'])}\n# native replay: {v['native']}\n" + "".join("# | " + l + "\n" for l in v.get("native_text", "").splitlines()[:60]))
                viol.append((v, dst, r))
            q = r["r"]
            if q["timedout"] or q["memout"] or q["incomplete"]: notes.append(f"{r['job']}: exploration incomplete (timeout={q['timedout']} memory={q['memout']} unsupported={q['unsupported']})")
            for c in j.get("cover", []):
                if not q["cover"].get(c) and not r["violations"]: notes.append(f"{r['job']}: reachability witness '{c}' was not reached")
            if r["mismatch"]: notes.append(f"{r['job']}: native validation mismatch: {r['mismatch'][0]}")
            if r.get("native_error"): notes.append(f"{r['job']}: {r['native_error']}")
        good = [r for r in results if "r" in r]
        S = lambda k: sum(r["r"][k] for r in good)
        fns = sorted({f for r in good for f in r["r"]["functions"] if "4tpie" in f})
        cov = {"states": S("paths"), "transitions": S("instrs"), "traces_validated_against_impl": sum(r.get("validated", 0) for r in good), "samples": [s for r in good for s in r["sample_text"]][:6],
               "paths_completed": S("completed"), "paths_cut": S("aborted"), "forks": S("forks"), "solver_queries": S("queries"), "solver_sat": S("sat"), "solver_unsat": S("unsat"), "solver_unknown": S("unknown"), "solver_cache_hits": S("cache_hits"), "branch_queries_by_finite_domain_table": S("table"), "queries_by_difference_logic": S("order"), "solver_s": round(S("solver_s"), 3), "assertions_evaluated": S("asserts"), "assertion_queries": S("assert_queries"), "scheduling_points": S("sched_points"),
               "functions_encoded_count": len(fns), "functions_encoded": [d[:200] for d in demangle(fns)][:300],
               "jobs": [{"job": r["job"], "bounds": r["bounds"], "parameters": r["defs"], **({k: r["r"][k] for k in ("paths", "completed", "aborted", "queries", "unsat", "sat", "solver_s", "instrs", "max_path_instrs", "timedout", "incomplete", "wall_s", "cover")} if "r" in r else {"error": r.get("error")})} for r in results],
               "complete_within_bounds": bool(good) and not errors and not any(r["r"]["timedout"] or r["r"]["memout"] or r["r"]["incomplete"] for r in good), "notes": notes + errors, "build_s": round(tb, 2)}
        ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - t0, 2),
              "assumptions": spec.get("assumptions", []) + ["libstdc++/libc/POSIX file system modelled by /verif/rt/rt.cpp; compression libraries replaced by an invertible stand-in", "clang -O1 bitcode of the sources with NDEBUG, as in the release build"],
              "violations": [{"what": v["what"], "replay": d, "native": v["native"]} for v, d, _ in viol] + [{"known_finding": k["id"], "what": v["what"]} for k, v in hits.values()]}
        json.dump(ev, open(f"{L.VERIF}/evidence/{pid}.json", "w"), indent=1)
        for k, v in hits.values(): print(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']}")
        for n in notes: print("NOTE", n[:700])
        for e in errors: print("ERROR", e[:500])
        if a.v:
            for r in results: print(f"  {r['job']}: " + (f"paths {r['r']['paths']} done {r['r']['completed']} cut {r['r']['aborted']} queries {r["r"]["queries"]} order {r["r"]["order"]} solver {r['r']['solver_s']:.2f}s instrs {r['r']['instrs']/1e6:.1f}M maxpath {r['r']['max_path_instrs']} wall {r['r']['wall_s']:.1f}s timeout {r['r']['timedout']} validated {r.get('validated')}/{len(r['mismatch'])} cover {r['r']['cover']}" if "r" in r else "ERROR"))
        for v, d, r in viol:
            print(f"VIOLATION property={pid} replay={d}")
            print(f"  job {r['job']}: {v['what']}; native replay: {v['native']}"); [print("    at", s[:220]) for s in v["stack"][:4]]
            rc = 1
        print(f"{pid} {tier}: {'VIOLATED' if rc else 'holds within bounds' if cov['complete_within_bounds'] else 'no violation in the explored part'}; paths {cov['states']}, instructions {cov['transitions']}, queries {cov['solver_queries']} ({cov['solver_s']} s), validated natively {cov['traces_validated_against_impl']}, wall {time.time()-t0:.1f} s")
        if not good: rc = rc or 2
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)
if __name__ == "__main__": main()
