#!/usr/bin/env python3
"""check PROPERTY [quick|thorough]  /  replay FILE : drives the explorer, writes evidence, judges."""
import json, os, re, subprocess, sys, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from plan import PLAN, ASSUME
V = build.VERIF
KF = V + "/known-findings.txt"

def known(prop):
    r = []
    if os.path.exists(KF):
        for l in open(KF):
            l = l.strip()
            if l.startswith("{"):
                k = json.loads(l)
                if k["property"] == prop: r.append(k)
    return r

def matches(k, v):
    return re.fullmatch(k["key"], v["key"]) and re.search(k.get("scenario", ""), v["scenario"]) and \
           (k.get("module") in (None, v["module"]))

def run_shard(a):
    d, mod, tier, i, n, tl, tmp, extra, var = a
    try:
        p = subprocess.run([d + "/explore", "--lib", d + "/librank.so", "--module", mod, "--tier", tier, "--shard", f"{i}/{n}",
                        "--time", str(tl), "--tmp", tmp] + extra, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                        timeout=tl + 120, errors="replace")
    except subprocess.TimeoutExpired:
        return (var, mod), -99, "", "timeout"
    return (var, mod), p.returncode, p.stdout, p.stderr

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="mc-")
    try:
        return check(prop, tier, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def check(prop, tier, t0, tmp):
    jobs = []; libs = {}
    for m in PLAN[prop]:
        if tier == "quick" and m.get("tier") == "thorough": continue
        key = (m["variant"], m.get("packbuf"), tuple(m.get("defs", ())))
        if key not in libs: libs[key] = build.build(m["variant"], m.get("packbuf"), m.get("defs", ()))
        tl = m.get("time", (300, max(600, 3600 // len(PLAN[prop]))))[tier == "thorough"]
        n = m.get("shards", 8)
        # every module in its own scaled time budget; shards of all modules share 8 cores
        for i in range(n): jobs.append((libs[key], m["module"], tier, i, n, tl, tmp, [], m["variant"]))
    variants = {(m["variant"], m["module"]): m for m in PLAN[prop]}
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(run_shard, jobs))
    S = {}; viol = []; samples = []; bad = []
    complete = True; per = {}
    for (var, mod), rc, out, err in res:
        sm = None
        for l in out.splitlines():
            try: j = json.loads(l)
            except Exception: continue
            j["module"] = mod; j["variant"] = var
            if j["type"] == "summary": sm = j
            elif j["type"] == "violation": viol.append(j)
            elif j["type"] == "sample": samples.append(j)
        if sm is None:
            bad.append((var, mod, rc, err[-500:])); continue
        p = per.setdefault(f"{mod} ({var})", {})
        for k, v in sm.items():
            if isinstance(v, bool): complete &= v; p[k] = p.get(k, True) and v
            elif isinstance(v, (int, float)) and k != "wall": S[k] = S.get(k, 0) + v; p[k] = p.get(k, 0) + v
            elif k == "wall": p[k] = max(p.get(k, 0), v)
    ks = known(prop); seenk = set(); fresh = []
    for v in viol:
        k = next((k for k in ks if matches(k, v)), None)
        if k: seenk.add(k["what"])
        else: fresh.append(v)
    # an unconfirmed violation is no verdict, but never silently dropped
    conf = [v for v in fresh if v["confirmed"]]
    unconf = [v for v in fresh if not v["confirmed"]]
    smp = []
    seenm = {}
    for s in samples:
        q = s["module"] + " (" + s["variant"] + ")"
        if seenm.get(q, 0) < 2:
            seenm[q] = seenm.get(q, 0) + 1
            smp.append({"module": q, "scenario": s["scenario"], "choices": s["choices"]})
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {"states": S.get("states", 0), "transitions": S.get("transitions", 0) + S.get("evals", 0),
                       "traces_validated_against_impl": S.get("executions", 0), "samples": smp or [{"note": "none"}],
                       "exhaustive": complete, "scenarios": S.get("scenarios", 0), "choice_points": S.get("choices", 0),
                       "pruned_at_visited_state": S.get("pruned", 0), "rejected_inputs": S.get("rejected_inputs", 0),
                       "operations_checked": S.get("evals", 0), "modules": per,
                       "explanation": "Every execution runs the implementation built from /repo under the controlled scheduler; "
                          "states = distinct hashes of (scenario, local histories of all processes, environment) or of abstract input states, "
                          "transitions = scheduler steps plus checked operations, traces = complete executions of the implementation."},
          "assumptions": ASSUME.get(prop, []) + ASSUME["*"], "wall_s": round(time.time() - t0, 2), "violations": len(conf)}
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(f"{V}/evidence/{prop}.json", "w") as f: json.dump(ev, f, indent=1)
    for w in sorted(seenk): print(f"KNOWN-FINDING: property={prop} {w}")
    print(f"{prop} {tier}: {S.get('scenarios',0)} scenarios, {S.get('executions',0)} executions, {S.get('states',0)} states, "
          f"{S.get('evals',0)} operations checked, complete={complete}, {time.time()-t0:.1f}s")
    for m, p in per.items(): print(f"   {m}: {p}")
    if conf:
        os.makedirs(V + "/replays", exist_ok=True)
        for i, v in enumerate(conf[:10]):
            f = f"{V}/replays/{prop}-{i}.json"; m = variants[v["variant"], v["module"]]
            json.dump({"property": prop, "tier": tier, "module": v["module"], "variant": m["variant"], "packbuf": m.get("packbuf"), "defs": list(m.get("defs", ())), **{k: v[k] for k in ("key", "msg", "scenario", "choices")}}, open(f, "w"), indent=1)
            print(f"  {v['key']}: {v['msg'][:700]}\n    scenario [{v['module']}, {v['variant']}]: {v['scenario'][:900]}")
            print(f"VIOLATION property={prop} replay={f}")
        if len(conf) > 10: print(f"  ... and {len(conf)-10} more")
        return 1
    for v in unconf: print("UNCONFIRMED", v["key"], v["msg"][:300], v["scenario"][:300])
    if bad or unconf:
        for b in bad: print("ENGINE-ERROR", b)
        return 3
    return 0

if __name__ == "__main__":
    if sys.argv[1] == "replay":
        j = json.load(open(sys.argv[2]))
        d = build.build(j["variant"], j.get("packbuf"), j.get("defs", ()))
        sys.exit(subprocess.call([d + "/explore", "--lib", d + "/librank.so", "--module", j["module"], "--tier", j["tier"], "--replay", ",".join(map(str, j["choices"]))] + sys.argv[3:]))
    sys.exit(main())
