#!/usr/bin/env python3
"""Writes known_findings.json (developer helper; never run by a check)."""
import json, subprocess
F = json.load(open("/verif/known_findings.json"))["findings"]
F = [f for f in F if f["status"] == "open" and f["property"] in ("C06",)]
F.append({"property": "C11", "key": "load-fails-infinite-json", "status": "open",
 "what": "a model whose likelihood is infinite (a cluster whose outputs are constant) is saved to JSON without error as null, which GpMixture::load refuses; the binary format is fine (JSON has no infinity: the repair needs another representation of that number in the file format)"})
F.append({"property": "C02", "key": "checkpoint-last-bits", "status": "open",
 "what": "the shipped build parses the JSON checkpoint with serde_json without its float_roundtrip feature, so a number may come back one unit in the last place away, and a resumed run may differ from the uninterrupted one by that, or by more where the trajectory of the optimization amplifies it. Cargo.toml is a build setting these checks must not change; the simulator builds serde_json with float_roundtrip so that everything else of the property is decided to the bit"})
F.append({"property": "C08", "key": "hang-logei-cobyla", "status": "open",
 "what": "LogEI gives f64::MIN at the training points; with COBYLA as infill optimizer (both are the defaults) the linear models COBYLA makes of it overflow, and its trust region step (cobyla-0.8.0 nlopt_cobyla.rs trstlp) may then loop for ever on NaN: the run never ends (about one run in 2000 of this simulator; scenario 680 of C05 with VERIF_SEED=1 and 900 scenarios). Bounding the values given to COBYLA cures it, but changes the runs of test_g24 and test_g24_with_fcstrs, whose expected number of points depends on the trajectories with overflow"})
log = subprocess.check_output(["git","-C","/repo","log","--format=%h %s"]).decode().splitlines()
P = {"replace the hot start checkpoint":"C01","write result files atomically":"C17","warm start with function":"C03","call function constraints with points":"C07",
"order of portfolio points":"C04","seed the clustering":"C04","optimization with one start":"C16","last best iteration":"C05","default tolerance":"C05",
"unfold the column":"C06","variance derivatives of a smooth":"C15","NaN errors and failed":"C12","resume with the run recorder":"C02","report the errors met":"C10",
"inducing points":"C16","save sparse surrogates":"C11","LHS of one point":"C14","infinite target":"C01","listed twice":"C17"}
fx=[]
for l in reversed(log):
    h,s=l.split(" ",1)
    for k,p in P.items():
        if k in s: fx.append(f"fixed: property={p} {h} {s[5:]}")
json.dump({"findings":F,"fixed":fx},open("/verif/known_findings.json","w"),indent=1)
print(len(fx))
