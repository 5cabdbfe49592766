"""Writes MANIFEST.json: a check for every property that has a module in pbt/checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
    "P01": "published functionals applied to harness polynomials vs duality and interpolation",
    "P02": "independent spanning sets and dimension formulas vs tabulated span",
    "P03": "derivatives of the harness's polynomial fit vs tabulated derivative tables",
    "P04": "closed-form integrals vs the created rules",
    "P05": "classical definitions, mpmath-free closed forms and exact integrals vs nodes, weights, recurrences",
    "P06": "two-cell assembly: traces from both sides, and vanishing traces on the reference cell",
    "P07": "partition, closure and support maps vs harness topology and sampled traces",
    "P09": "harness geometry (Gram determinants, adjugates, recursive Kuhn cells) vs the published cell data",
    "P10": "exact harness integrals vs orthonormality and recombination of the expansion sets",
    "P11": "harness polynomial fits and ranks vs the derived spaces",
    "P12": "products of factor tables computed by the harness vs the tensor-product element",
    "P13": "tables of the assembled one-cell and block elements vs the placed parts",
    "P14": "tables and node lists of the original vs the restricted or nodal parts",
    "P15": "facet tables, zero-off-facet rule and documented refusals vs the trace element",
    "P16": "independent integrals of harness fields vs published functionals, Riesz vectors and direct calls",
    "P17": "fields whose trace vanishes on an entity vs the functionals of that entity",
    "P18": "rank and containment of fitted derivatives between the spaces of the complex, and commuting interpolation",
    "P19": "replay of generated operation histories on fresh objects",
    "P20": "documented domain of arguments vs what is accepted, with valid neighbours",
    "P21": "tables of the source element vs the pointwise dual",
    "P22": "closed forms and affine pull-backs vs the tables",
    "P23": "tables at symbolic points, evaluated at numbers, vs tables at these numbers",
    "P08": "entity tables vs cell tables at independently mapped points",
}
NOTE = ("Generated-input search: no violation among the cases of this run (counts and samples in the evidence file). Trusts numpy, Hypothesis and the "
        "harness's own descriptions of cells, polynomial spaces and exact integrals; floating-point tolerances are stated in the check.")


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "pbt", "checks", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": "property-based testing (Hypothesis): " + ORACLE[i], "level": "exploration", "level_note": NOTE})
        else:
            na.append({"property": i, "reason": "no check built yet"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks: the checks import FIAT from /repo's working tree and use its public interface only. Replay a violation with "
                  "./check.sh <id> quick --replay <file>."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
