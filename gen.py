"""writes properties.jsonl and MANIFEST.json (run by hand after editing; not part of any check)"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
GRAPH = "static analysis: value-graph dataflow over rustc MIR (loops summarised in closed form), compared with the specified graph in normal form"
NOTE = ("All inputs symbolic; equality of normal forms discharges an obligation, an alarm needs two graphs that differ at a sampled valuation. "
        "Obligations the analysis cannot decide are listed in the evidence and raise no alarm. Trusts the MIR models of std/ndarray/num-bigint calls.")
P = []
NA = []


def prop(id, title, statement, over, q, why, files, mech, technique=GRAPH, level="other", note=NOTE):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), technique, level, note))


def na(id, title, statement, over, q, why, files, mech, reason):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), None, None, None))
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(HERE, "props.py")).read())
P.sort(key=lambda p: p[0]["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, *_ in P:
        f.write(json.dumps(p) + "\n")
man = dict(version=1, setup_cmd="true", checks=[
    dict(property=p["id"], quick_cmd="bash /verif/check.sh %s quick" % p["id"], thorough_cmd="bash /verif/check.sh %s thorough" % p["id"],
         technique=t, level=l, level_note=n) for p, t, l, n in P if t], not_applicable=NA,
    notes="Every check re-extracts the MIR of /repo's working tree with a rustc driver (built once per sandbox into /verif/.cache) and analyses it; nothing of /repo is executed.")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
for p, *_ in P:
    assert len(p["title"]) <= 80, p["id"]
