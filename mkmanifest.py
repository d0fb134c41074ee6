import json
TECH={
"C01":"TLA+/TLC: exact rational projection specified in TLA+, recorded calls validated by TLC with certificates",
"C02":"TLA+/TLC: exact rational joint projection specified in TLA+, recorded calls validated by TLC with certificates",
"C03":"TLA+/TLC: session specification, recorded call histories validated by TLC over all assignments",
"C04":"TLA+/TLC: model-checked Hungarian machine (optimality, termination), exhaustive small matrices replayed and judged by TLC",
"C05":"TLA+/TLC: session specification over back ends and precisions, recorded histories validated by TLC",
"C06":"TLA+/TLC: session specification with transformations (gain, polarity, relabelling, padding), histories validated by TLC",
"C07":"TLA+/TLC: session specification with batches of scenes, recorded histories validated by TLC",
"C08":"TLA+/TLC: session specification over the family of functions, recorded histories validated by TLC",
"C09":"TLA+/TLC: session and pipeline specifications with clamping, recorded histories validated by TLC",
"C10":"TLA+/TLC: model-checked pipeline machine, configuration product generated and recorded outcomes validated by TLC",
"C11":"TLA+/TLC: exact definition on signals minus their means in TLA+, recorded calls validated by TLC",
"C12":"TLA+/TLC: exact loaded systems in TLA+ and pipeline with silent references, recorded calls validated by TLC",
"C13":"TLA+/TLC: session specification with iterative solver as a bounded perturbation, histories validated by TLC",
"C14":"TLA+/TLC: model-checked pipeline machine on degenerate abstract signals, replayed and validated by TLC",
"C15":"TLA+/TLC: exact rational gradients in TLA+ with certificates, recorded back-propagations validated by TLC",
"C16":"TLA+/TLC: session specification of pure calls, recorded histories and interleavings validated by TLC",
"C17":"TLA+/TLC: history specification with nested subspaces, recorded observations validated by TLC",
"C18":"TLA+/TLC: filtered-reference scenes generated in TLA+, recorded calls validated by TLC",
}
import sys; sys.path.insert(0,"/verif/harness")
NOTE={
"default":"Every recorded call of the plan is judged by TLC against the specification; generated inputs sample the quantified space, within the bounds in DESIGN.md. Trusts TLC, the JSON projection of floating point results in the driver, and numpy/torch as the libraries the code uses.",
"C04":"The Hungarian machine is model-checked exhaustively on small matrices; the solvers are replayed on all of them and on structured larger ones and judged by TLC. Trusts TLC and the JSON projection in the driver.",
}
from lib import props
ids=sorted(props.STAGES)
allids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m={"version":1,"setup_cmd":"harness/setup.sh",
"checks":[{"property":i,"quick_cmd":"harness/check.py %s --tier quick"%i,"thorough_cmd":"harness/check.py %s --tier thorough"%i,
 "evidence_file":"evidence/%s.json"%i,"technique":TECH[i],"level":"model_checking","level_note":NOTE.get(i,NOTE["default"])} for i in ids],
"not_applicable":[{"property":i,"reason":"check under construction"} for i in allids if i not in ids],
"notes":"Specifications in spec/ (TLA+, checked with TLC). No hooks in /repo: everything is observed through the public API."}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); print(ids)
