"""Writes MANIFEST.json: every property with a file in checks/ is claimed."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BLACK = ("property-based testing of the real program: generated networks are run "
         "through the command line and the results are judged by ")
DRV = "property-based testing through a C++ driver linked with the sources: "
TECH = {
    "C01": BLACK + "an independent reference model of the node laws",
    "C02": BLACK + "an independent re-computation of the box scheme residual",
    "C03": BLACK + "an independent model of controls and short edges",
    "C04": BLACK + "an independent AC power flow model",
    "C05": BLACK + "an independent model of the conversion law",
    "C06": BLACK + "record/replay equality, bounds of the load process and its law",
    "C07": "metamorphic property-based testing: a generated problem and a rewritten "
           "equivalent one are run and the results compared",
    "C08": BLACK + "the documented time grid and the given initial values",
    "C09": "stateful property-based testing: generated sequences of single and "
           "simultaneous runs against byte-wise snapshots of directories",
    "C10": DRV + "generated nonlinear systems against the definition of a solution",
    "C11": BLACK + "residuals of all equations, under generated solver settings and "
           "unsolvable problems",
    "C12": "mutation-based testing: one generated inconsistency is put into a "
           "generated valid problem, which has to be refused",
    "C13": "structure-aware fuzzing of files and command line under the address and "
           "undefined behaviour sanitizers",
    "C14": "metamorphic property-based testing of defaults and units",
    "C15": "differential property-based testing: generated schemas under a JSON "
           "schema validator against the program's own verdict",
    "C16": "property-based testing with injected write faults against the original "
           "file contents",
    "C17": DRV + "derivatives of generated networks against complex-free numerical "
           "differentiation of the evaluated equations",
    "C18": DRV + "generated operation sequences against a dense model (stateful)",
    "C19": DRV + "gradients against numerical differentiation of the objective and "
           "the constraints",
    "C20": DRV + "generated evaluation histories against a fresh optimiser (stateful)",
    "C21": DRV + "generated grids and accesses against a dense model (stateful)",
    "C22": BLACK + "feasibility, re-simulation and comparison with the start",
    "C23": DRV + "generated series against an exact-rational reference and round trips",
    "C24": DRV + "generated states against the closed-form laws, and monotonicity and "
           "continuity relations",
    "C25": DRV + "samples of generated intervals and processes against their laws",
    "C26": DRV + "generated histories of building, moving and destroying against a graph model, under sanitizers (stateful)",
    "C27": DRV + "generated paths and times against a lexical reference",
    "C28": "property-based testing of the helper programs: generated files, results and restarts against the complete expected contents",
    "C29": DRV + "objective and derivatives against a reference sum and numerical "
           "differentiation",
    "C30": DRV + "stateful: callback histories of the optimisation library against "
           "fresh instances, start and bounds against reference interpolation",
    "C31": DRV + "random convex problems, optimality conditions (non-negative least "
           "squares) as oracle",
}
NA = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(V, "checks", i + ".py")):
            checks.append({
                "property": i,
                "quick_cmd": "python3 checks/%s.py" % i,
                "thorough_cmd": "python3 checks/%s.py --thorough" % i,
                "technique": TECH[i],
                "level": "exploration",
                "level_note": "random generated cases, shrunk on failure; see "
                              "DESIGN.md, section %s" % i})
        else:
            na.append({"property": i, "reason": NA.get(i, "no check built yet")})
    m = {"version": 1,
         "setup_cmd": "python3 tools/setup.py",
         "checks": checks, "not_applicable": na}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
