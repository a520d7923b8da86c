#!/usr/bin/env python3
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TLA = "TLA+ model checked with TLC; "
CH = {
 "S01": ("TLC-generated operation histories replayed on the code",
         "Model checked exhaustively for 2 fields on a 3x1x1 window; the code is compared with the model after every operation of simulated histories (windows up to 60 voxels, 6 voxel types), under AddressSanitizer. Trusts the driver and the TLA+ definition of each operation."),
}
import importlib.util
p = os.path.join(V, "lib", "manifest_extra.py")
if os.path.exists(p):
    s = importlib.util.spec_from_file_location("me", p); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    CH.update(m.CH)
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in CH:
        e = CH[i]
        checks.append(dict(property=i, quick_cmd=f"bin/check {i} quick", thorough_cmd=f"bin/check {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=TLA + e[0],
                           level=e[2] if len(e) > 2 else "model_checking", level_note=e[1]))
na = [dict(property=i, reason="check not built yet") for i in ids if i not in CH]
hooks_commits = []
r = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True)
for l in r.stdout.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("hooks:"):
        hooks_commits.append(h)
man = dict(version=1, setup_cmd="bin/setup",
           hooks=dict(guard="FIELD3D_VERIF_HOOKS", enable="checks compile /repo's src/*.cpp themselves with -DFIELD3D_VERIF_HOOKS (lib/common.py BASE)", source_commits=hooks_commits),
           checks=checks, not_applicable=na,
           notes="bin/check <id> [quick|thorough]; TLA+ modules in spec/, drivers in harness/, see DESIGN.md")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
