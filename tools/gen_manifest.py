"""Writes /verif/MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from qpsa.cones import CONES
TECH = "static analysis: gated value-flow terms (abstract interpretation of the syntax trees) compared with the accepted definitions"
EXTRA = {
}
NOTE = ("Decides the clauses whose truth is in the shape of the code; numpy/scipy/tables_io calls are uninterpreted symbols with stated algebraic laws. "
        "A function whose terms cannot be decided is reported as undecided in the evidence and raises no alarm.")
NA = {
    "N01": "The accuracy of a conversion is a numerical quantity of runtime arrays (interpolation error against number of points); no static bound is in reach. The structural clauses (which arguments, grids and methods) are claimed under C12, C21, C25.",
    "N02": "Numerical integrals and monotonicity quantify over table values supplied at run time and over rounding; the structural clause (same table, same quadrature, own integral) is claimed under C10.",
    "N03": "Quantifies over schedules of several MPI processes and over HDF5's behaviour, neither of which is in this source; the single-process row-range clauses are claimed under C14 and C15.",
    "N04": "Quantifies over crash points inside HDF5/pytables writes, which are foreign code; what the source decides (order and closing) is claimed under C13 and C15.",
    "N05": "The residual reached by the greedy fit is a numerical quantity of runtime data; the encoding clauses are claimed under C25.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    if p in CONES:
        checks.append(dict(property=p, quick_cmd=f"python3 -m qpsa.check {p}", thorough_cmd=f"python3 -m qpsa.check {p} --thorough",
                           technique=TECH + EXTRA.get(p, ""), level="other", level_note=NOTE))
m = dict(version=1, setup_cmd="python3 -c \"import qpsa.check\"", checks=checks,
         not_applicable=[dict(property=p, reason=NA[p]) for p in props if p not in CONES])
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
