"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from props_*.py."""
import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
root = os.path.dirname(here)
props, na = [], []
for m in sorted(f[:-3] for f in os.listdir(here) if f.startswith("props_")):
    mod = importlib.import_module(m)
    props += mod.PROPS
    na += mod.NOT_APPLICABLE
props.sort(key=lambda p: p["id"])
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props + [x for x in na]:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [
                {"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
man = {"version": 1,
       "setup_cmd": "python3-vt -c 'import sa.run'",
       "checks": [], "not_applicable": []}
for p in props:
    man["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3-vt -m sa.run " + p["id"],
        "thorough_cmd": "python3-vt -m sa.run %s thorough" % p["id"],
        "technique": p["tech"], "level": "other", "level_note": p["note"]})
for p in na:
    man["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(props), "claimed,", len(na), "not applicable")
