"""Source of properties.jsonl, MANIFEST.json and checks.json: run
python3 tools/props.py after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, check=None, na=None, technique="", note="", level="exploration", **conf):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                           "observe_at": observe, "hook_needed": None},
                  _check=check, _na=na, _tech=technique, _note=note, _level=level, _conf=conf))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

checks, manifest, na = {}, [], []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
        if p["_check"]:
            checks[p["id"]] = dict(pkg=p["_check"], **p["_conf"])
            manifest.append(dict(property=p["id"], quick_cmd="python3 run.py " + p["id"],
                                 thorough_cmd="VERIF_TIER=thorough python3 run.py " + p["id"],
                                 technique=p["_tech"], level=p["_level"], level_note=p["_note"]))
        else:
            na.append(dict(property=p["id"], reason=p["_na"] or "check not built yet"))
json.dump(checks, open(os.path.join(V, "checks.json"), "w"), indent=1)
json.dump(dict(version=1, setup_cmd="python3 run.py --setup", checks=manifest, not_applicable=na,
               notes="No hooks in /repo: every monitor works through exported APIs, built binaries, fake peers and stand-in tools."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
for n, d in (("MANIFEST", json.load(open(os.path.join(V, "MANIFEST.json")))),):
    jsonschema.validate(d, json.load(open("/root/.vp/MANIFEST.schema.json")))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(V, "properties.jsonl")):
    jsonschema.validate(json.loads(l), sch)
print(len(P), "properties,", len(manifest), "checks,", len(na), "not claimed")
