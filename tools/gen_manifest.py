"""Writes MANIFEST.json from the checks that exist."""
import importlib.util, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("gp", os.path.join(here, "tools", "gen_properties.py"))
gp = importlib.util.module_from_spec(spec)
spec.loader.exec_module(gp)
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]
NOTE = {
 "C01": "Seeded search over fault positions and power-loss disks; not exhaustive. Trusts the disk model (ordered metadata, file data durable only after fsync).",
 "C02": "Seeded histories of modify/search/size/save/export/load with restarts in forked processes; long-time g-function solver is a stand-in in most runs.",
 "C03": "Seeded truncations, read errors and short reads; documents are objects or lists (a cut-off bare number is still valid JSON).",
 "C04": "Seeded interleavings of simulated clients at every file operation, with faults and crashes of some; per-path register linearizability checked on the recorded history.",
 "C05": "Seeded interleavings and mkdir/image-write faults; image rendering is replaced by a small real file write.",
 "C06": "Seeded faults at numbered call sites inside ghedt code, each compared with an undisturbed forked twin.",
 "C07": "Seeded query histories, interrupts at call sites and preemption at every source line between threads; oracle is a fresh copy of the library.",
 "C08": "Seeded operation histories and thread interleavings over shared inputs; oracle is each design run alone in a forked twin.",
 "C09": "Seeded excess profiles (including non-monotone) and failing evaluations; oracle is independent re-evaluation plus an evaluation budget.",
 "C10": "Seeded clocks, generator states, hash seeds, environments and preceding work; results compared with a reference process.",
 "C11": "Attributes observed at every source line while operations run and fail; oracle is the list of complete simulations.",
 "C12": "Seeded operation and fault histories; oracle is an exchanger built fresh and put directly into the present state.",
}
checks = []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(here, "sim", "checks", i.lower() + ".py")):
        continue
    checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": "deterministic simulation with seeded fault injection and schedule search",
                   "level": "exploration", "level_note": NOTE[i]})
done = {c["property"] for c in checks}
na = []
for p in props:
    if p["id"].startswith("N"):
        na.append({"property": p["id"], "reason": gp.NAREASON})
    elif p["id"] not in done:
        na.append({"property": p["id"], "reason": "Check still under construction."})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "GHEDT_SIM", "enable": "No hook was needed: every seam is taken by wrapping the standard library, pygfunction and interpreter monitoring events from /verif; the variable is not read anywhere.", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. /repo commits are all defect repairs (fix:), listed in known_findings.json."}
with open(os.path.join(here, "MANIFEST.json"), "w") as fp:
    json.dump(m, fp, indent=1)
    fp.write("\n")
print(sorted(done), len(na))
