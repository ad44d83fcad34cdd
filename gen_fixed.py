#!/usr/bin/env python3
"""Rewrite the "fixed" list of known_findings.json from /repo's fix: commits.

The attribution (subject -> properties) is kept here; the list itself only
documents, it suppresses nothing.
"""
import json, subprocess, os
HERE = os.path.dirname(os.path.abspath(__file__))
ATTR = {
 "attainable mass flows near": "C32", "empty initial data can": "C33", "flux methods can be cast": "C33",
 "move assignment does not drop": "C28", "tables of counters gathered": "C28", "ranks gather their counters": "C28",
 "the tag buffer surrounds": "C29", "array based gradient detection": "C29",
 "an output frequency of zero": "C26", "outputs fire at times that round": "C26", "a failed step does not repeat": "C25",
 "the RADAU solver accepts": "C19", "rotations between nearly opposite": "C20",
 "span::last": "C02", "subspan keeps": "C02", "layout_stride::required": "C02", "ForEachRow counts": "C03",
 "assignment of complete": "C03", "the SIMD patch update": "C04", "HLLEM-Larrouturou upwinds": "C05",
 "three-dimensional HLLEM": "C05", "HLLEM waves take": "C12", "HLLEM returns unmodified": "C12",
 "shallow water momentum flux": "C11", "Einfeldt signals of the ideal": "C05", "the sequential stable": "C06",
 "masked Einfeldt": "C05", "instantiate the three": "C05", "instantiate the two": "C05",
 "the characteristic MUSCL-Hancock methods of all": "C05", "the characteristic reconstruction of the ideal": "C05",
 "completing a chunk of ideal": "C16", "primitive MUSCL-Hancock fluxes vanish": "C05", "sign of the temperature": "C05",
 "masked characteristic": "C05", "vectorised HLLEM fluxes tolerate": "C05", "vectorised primitive": "C05",
 "vectorised shallow-water": "C11", "vectorised shallow water": "C11", "vectorised signal speeds": "C06",
 "the vectorised stable time step": "C06", "vectorised mass fractions": "C16",
 "shallow water solutions locate": "C11",
 "PerfectGasMix weighs": "C09", "isentropic pressure changes keep": "C09", "kinetic states of single": "C15", "isentropic expansions count": "C09",
 "conservative gradients keep": "C13", "the inverse primitive": "C13", "reconstructions scale": "C13", "masked characteristic slopes of the perfect": "C13",
 "vectorised primitive MUSCL-Hancock limits": "C13", "the sequential primitive MUSCL": "C05", "the characteristic reconstruction of the ideal gas predicts": "C13",
 "assigning a reactor assigns": "C17", "a new reactor has initialised": "C17", "invalid composition strings": "C17",
 "advancing a reactor updates": "C18", "the maximum temperature rate": "C18", "AdvanceAndFindMaxdT starts": "C18", "production rates are evaluated": "C18",
 "retrying a failed integration": "C19", "the first step of the RADAU": "C19", "cloning a RADAU": "C19", "the last step of the RADAU": "C18",
 "the step size controller of the RADAU": "C18", "a NaN in the numerical Jacobian": "C19", "completing the last cells of a row": "C16",
 "the limiter for cut-cell": "C21", "neighbors of a cut cell": "C21", "gradients of primitive variables are": "C21",
 "the unshielded centroid": "C21", "integrals over h-grid": "C21", "states behind embedded": "C21",
 "cone distances are": "C22", "read point files": "C22",
 "Newton iteration keeps": "C10", "shallow water shock speeds": "C06",
}
EXTRA = os.path.join(HERE, "fixed_attribution.json")
if os.path.exists(EXTRA):
    ATTR.update(json.load(open(EXTRA)))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    hit = [ATTR[k] for k in sorted((k for k in ATTR if s.startswith(k)), key=len, reverse=True)]
    if not hit:
        raise SystemExit("no attribution for: " + s)
    out.append(f"fixed: property={hit[0]} {h} {s}")
p = os.path.join(HERE, "known_findings.json")
d = json.load(open(p))
d["fixed"] = out
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
