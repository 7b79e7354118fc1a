#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/props.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
import props
NA = {
    "P24": "the Python, web and Foxglove front-ends are Python/TypeScript around the WASM module; there is no emscripten toolchain or WASM build here, and no symbolic executor for those languages that reaches through the module boundary (the C++ behind the module is P19)",
}
TECH = "symbolic execution of the LLVM bitcode compiled from the current sources (own engine, Z3 bit-vector/floating-point/array queries); every path's assertions and memory accesses decided for all input values within the bounds; counterexamples replayed natively under AddressSanitizer"
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for pid in ids:
    if pid in props.PROPS:
        c = props.PROPS[pid]
        checks.append({"property": pid, "quick_cmd": f"bin/check {pid} --tier quick", "thorough_cmd": f"bin/check {pid} --tier thorough", "evidence_file": f"evidence/{pid}.json",
                       "technique": c.get("technique", TECH), "level": "model_checking",
                       "level_note": "Bounded: " + " ".join(c["bounds"].split()) + (". Outside: " + " ".join(c["outside"].split()) if c.get("outside") else "")})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "check under construction")})
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
src = [l.split()[0] for l in hook.splitlines() if "Verification hook" in l] or ["65b6bb2"]
if os.path.exists(V + "/MANIFEST.json"):
    old = json.load(open(V + "/MANIFEST.json")).get("hooks", {}).get("source_commits")
    if old and src == ["65b6bb2"]:
        src = old
m = {"version": 1, "setup_cmd": "make -s -j4 -C engine OUT=$PWD/build", "hooks": {"guard": "CLOUDINI_VERIF", "enable": "-DCLOUDINI_VERIF -DCLOUDINI_VERIF_POINTS_PER_CHUNK=<n> -DCLOUDINI_VERIF_PROBE_POINTS=<n>: smaller chunk and probe sizes, so that chunk boundaries are within the bounds of a symbolic run", "source_commits": src},
     "checks": checks, "not_applicable": na}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
