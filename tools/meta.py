"""Writes properties.jsonl and MANIFEST.json (single source of both)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALIB = "projects/pt1/python/torch_mlir/jit_ir_importer/build_tools/abstract_interp_lib_gen.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, level_note, level="other"):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
        _t=technique, _n=level_note, _l=level))


NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None, None)
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
na_ids = {x["property"] for x in NA}
M = dict(version=1, setup_cmd="./setup.sh",
         checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick",
                      thorough_cmd=f"./check.sh {p['id']} thorough",
                      evidence_file=f"evidence/{p['id']}.json", technique=p["_t"], level=p["_l"], level_note=p["_n"])
                 for p in P if p["id"] not in na_ids],
         not_applicable=NA)
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(M, f, indent=1, ensure_ascii=False)
    f.write("\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(V + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), s)
    jsonschema.validate(M, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(P), "properties")
except ImportError:
    print("jsonschema missing")
