#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand when a property is added; no check runs it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = props_dir = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "json_typegen_shared/src/"
def prop(id, title, statement, text, why, files, mech, over=("inputs",), claimed=True, na=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                anchors=dict(files=[f if f.startswith("json_typegen") else S + f for f in files],
                             mechanism=[dict(name=n, where=(w if w.startswith("json_typegen") else S + w)) for n, w in mech]), _na=na)
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "meta_props.py")).read())
TECH = "bounded symbolic execution of rustc's LLVM IR for the real code, assertions decided by z3"
NOTE = ("Within the stated bounds every input is covered: all paths are explored, path conditions and assertions are decided by z3, "
        "counterexamples and sampled paths are replayed on a native build. Trusted: rustc's IR, the executor's model of LLVM, the reference "
        "semantics in harness/src (JSON reader, reference inference, readers of the generated languages). Bounds: ")
ps = LIST
with open(V + "/properties.jsonl", "w") as f:
    for p in ps:
        f.write(json.dumps({k: v for k, v in p.items() if k != "_na"}, ensure_ascii=False) + "\n")
checks, na = [], []
for p in ps:
    if p["_na"]:
        na.append(dict(property=p["id"], reason=p["_na"]))
        continue
    d = props.PROPS[p["id"]]
    checks.append(dict(property=p["id"], quick_cmd="python3 tools/check.py %s quick" % p["id"], thorough_cmd="python3 tools/check.py %s thorough" % p["id"],
                       technique=TECH, level="model_checking", level_note=NOTE + d["bounds"] + ". Outside: " + d["outside"] + "."))
unk = set(props.PROPS) - set(p["id"] for p in ps)
assert not unk, unk
json.dump(dict(version=1, setup_cmd="python3 tools/build.py", checks=checks, not_applicable=na,
               hooks=dict(guard="none", enable="no hooks: the harnesses use the public API only", source_commits=[]),
               notes="See DESIGN.md. Genuine defects found and fixed are listed in known_findings.json."), open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
for p in ps:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
print(len(checks), "claimed,", len(na), "not applicable")
