import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/vf")
from main import TABLE, NOTES
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TABLE:
        n = NOTES.get(i, "")
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                       "technique": "TLA+ specification checked with TLC; behaviours replayed on the real code and recorded traces validated against the specification",
                       "level": "model_checking", "level_note": n or "Model exhaustively checked within small constants; the code is bound by replayed behaviours and validated traces, so assurance on the code is for the executions explored."})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
import subprocess
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines() if l.split(" ", 1)[1].startswith("hooks:")]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "cfg(vp_hooks)", "enable": "the checks build the harness workspace, and through it /repo's crates, with RUSTFLAGS='--cfg vp_hooks'; it makes marlin's pc and ahp modules public and changes nothing else", "source_commits": hooks}, "checks": checks, "not_applicable": na,
     "notes": "TLA+ (TLC). See DESIGN.md. The drivers instantiate the generic public API with logging mock fields, groups and RNGs."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "na")
