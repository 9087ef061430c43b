#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the checks present in mc/checks."""
import importlib.util
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXPL = "bounded exhaustive enumeration of configurations, executed on the real code against an independent reference model"
SEQ = "bounded exhaustive enumeration of call histories (explicit-state), executed on the real code"
NOTES = {
    "C01": (EXPL, "All families/cells/degrees/variants to the bound x entities x derivative orders x point-set structures; oracle: FIAT built and evaluated independently. Degrees beyond the bound and FIAT itself are trusted."),
    "C02": (EXPL, "All element trees of the composite alphabet (depth 2-3) x entities x derivative orders x point-set structures; oracle: mc.ref reference models. Deeper trees are extrapolated."),
    "C03": (EXPL, "All elements of the alphabet x entities x derivative orders x placements of free indices in the run-time coordinates; oracle: the reference models at the same points."),
    "C04": (EXPL, "All element trees x all entities; oracle: the composition of FIAT's leaf attachment."),
    "C05": (EXPL, "All element trees x all entities; oracle: vanishing on a unisolvent lattice of the entity, decided by enumeration of lattice points."),
    "C06": (EXPL, "All element trees x all entities x all orientations and pairs of orientations; oracle: group laws and geometric remapping of the nodes."),
    "C07": (EXPL, "All elements with a dual basis x all basis functions and component indices; oracle: duality and FIAT's functionals applied directly."),
    "C08": (EXPL, "All cells, nestings, degrees and schemes to the bound x all monomials; oracle: closed-form integrals."),
    "C09": (EXPL, "All point sets over a coordinate alphabet to 3 factors, and all ordered pairs for equality; oracle: coordinates."),
    "C10": (EXPL, "All restrictable element trees x domains x nested domains x entities; oracle: the sub-basis picked by entity attachment."),
    "C11": (EXPL, "All physically mapped families x all lattice cells x all cell-size assignments; oracle: FIAT's nodal basis built directly on the physical cell."),
    "C12": (EXPL, "All two-cell patches over a lattice x all global vertex orderings x cell sizes; oracle: jumps across the shared facet."),
    "C13": (EXPL, "All physically mapped scalar families x lattice cells x scale factors; oracle: invariance of values."),
    "C14": (EXPL, "All strictly convex lattice quadrilaterals x degrees x entities x derivative orders; oracle: polynomial completeness, nodality and traces."),
    "C15": (EXPL, "All description trees to the depth bound and all pairs of them; oracle: structural value of the construction term."),
    "C16": (EXPL, "All families, aliases and exterior-calculus names x cells x degrees, and combinators; oracle: the implemented FIAT/FInAT element."),
    "C17": (EXPL, "All vector/tensor/mixed descriptions x symmetry maps x component indices; oracle: explicit flattening by enumeration."),
    "C18": (SEQ, "All query histories up to the depth bound on elements and on pairs sharing parts; oracle: answers of a fresh element, unchanged earlier results."),
    "C19": (EXPL, "All expression trees to the depth bound over the node alphabet x assignments x both back ends; oracle: direct evaluation."),
    "C20": (EXPL, "All cells x degrees x schemes x candidate point sets x entities x orders; oracle: exact deltas / required refusal."),
    "C21": (EXPL, "All configurations of the alphabet, pairwise; oracle: injectivity of table names and shapes."),
    "C22": (EXPL, "All element trees offering a twin x entities x derivatives; oracle: reference models."),
    "C23": (EXPL, "All elements x queries under every explored hash seed / set iteration order in separate processes; oracle: identical canonical answers."),
    "C24": (EXPL, "All requests (constructors and queries x arguments inside and just outside their domain); oracle: a validity model written from the published rules decides refusal or answer and its shape."),
    "C25": (EXPL, "All elements and composites x cells of the reported complex x basis functions x Gram entries; oracle: composition model of degree and subdivision, polynomial fits on lattices, independent Gauss rules."),
}
props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(ROOT, "mc", "checks", pid.lower() + ".py")):
        tech, note = NOTES[pid]
        checks.append({"property": pid,
                       "quick_cmd": "bin/check %s --tier quick" % pid,
                       "thorough_cmd": "bin/check %s --tier thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/selftest.py", "checks": checks, "not_applicable": na,
     "notes": "Stateless model checking of the Python implementation: every check enumerates a bounded space exhaustively and runs the real code in /repo on each state. No hooks in /repo."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "not claimed")
