import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
src = open(here + "/overlay/core/props.rs").read()
note = json.load(open(here + "/tool/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in note["not_applicable"]:
        na.append({"property": i, "reason": note["not_applicable"][i]}); continue
    th = re.findall(r"^pub (?:proof )?fn (%s_\w+)" % i.lower(), src, re.M)
    if i in ("C15", "C16"): th = re.findall(r"^pub (?:proof )?fn (%s_\w+)" % i.lower(), open(here + "/overlay/py/pyprops.rs").read(), re.M)
    mod = "lib::pyprops::" if i in ("C15", "C16") else "lib::props::"
    checks.append({"property": i, "quick_cmd": "python3 tool/check.py %s quick" % i, "thorough_cmd": "python3 tool/check.py %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": note["technique"].get(i, note["technique"]["default"]), "level": "proof",
                   "level_note": note["level"].get(i, "") + note["level"]["default"], "theorems": [mod + t for t in th]})
json.dump({"version": 1, "setup_cmd": "bash tool/setup.sh", "checks": checks, "not_applicable": na, "notes": note["notes"]}, open(here + "/MANIFEST.json", "w"), indent=1)
