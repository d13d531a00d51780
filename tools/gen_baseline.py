#!/usr/bin/env python3
"""contracts/baseline.json: locals and loop shapes of the functions the
annotations were written for (regenerate on an unchanged tree only)."""
import json, shutil, subprocess, sys, tempfile
x = json.loads(subprocess.run([sys.argv[1], "/repo/src"], capture_output=True, text=True, check=True).stdout)
m = json.loads(subprocess.run(["cargo", "metadata", "--offline", "--format-version", "1"], cwd="/verif/harness", capture_output=True, text=True, check=True).stdout)
e = [k["manifest_path"] for k in m["packages"] if k["name"] == "enquote"][0]
x["fns"] += [f for f in json.loads(subprocess.run([sys.argv[1], e.rsplit("/", 1)[0] + "/src"], capture_output=True, text=True, check=True).stdout)["fns"] if f["key"] != "enquote"]
pest = [k["manifest_path"] for k in m["packages"] if k["name"] == "pest"][0]
with tempfile.TemporaryDirectory() as d:  # one file of pest: Position
    shutil.copy(pest.rsplit("/", 1)[0] + "/src/position.rs", d + "/lib.rs")
    x["fns"] += [f for f in json.loads(subprocess.run([sys.argv[1], d], capture_output=True, text=True, check=True).stdout)["fns"] if f["key"].startswith("Position::")]
b = {f["key"]: {"locals": f["locals"], "loops": len(f["loops"]), "kinds": [l["kind"] for l in f["loops"]],
              "names": sorted(set(f["calls"]) | {"." + m for m in f["methods"]})} for f in x["fns"]}
json.dump(b, open(__file__.rsplit("/", 2)[0] + "/contracts/baseline.json", "w"), indent=0, sort_keys=True)
