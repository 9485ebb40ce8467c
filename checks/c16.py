"""C16: nothing hidden is drawn, nothing is drawn that is not an edge."""
import draw
import hidden
import hlr
from runner import Part

PROPERTY = "C16"
TECHNIQUE = "property-based testing: random closed solids and views against a brute-force point-wise visibility oracle"
NOTE = "Every drawn line sampled lies on an edge no facet hides, on all generated solids; points within the stated margins of an occlusion boundary are not judged."
RULE = ("random closed conforming solids (hulls, voxel solids, prisms, plates with holes, height "
        "fields, disjoint unions of up to 3) in random, round-angle and named views; every drawn line "
        "is sampled and each sample must lie on a projected outline/feature edge that no facet clearly "
        "hides. Non-trivial: some feature edge is partly or wholly hidden by a facet it does not belong "
        "to, and at least 20 clearly visible points were drawn.")
ASSUMPTIONS = ["margins: 0.3pt sideways, 1e-6 of the size in depth; points nearer than that to an "
               "occlusion boundary are not judged"]


def run(c):
    r = hidden.setup(c)
    if r is None:
        return False, ["degenerate"]
    T, sc, segs, k = r
    m, g, tol = 0.3 / k, 1e-6 * sc.size, 2.5e-3 / k
    msg, st = hlr.check_soundness(sc, segs, tol, m, g)
    if msg:
        raise draw.Violation(msg)
    _, cst = hlr.check_completeness(sc, segs, 1e9, m, g, k=7)
    lab = hidden.labels(c, T, sc)
    if cst["hidden"]:
        lab.append("occlusion")
    if cst["partial"]:
        lab.append("partial occlusion")
    return cst["hidden"] > 0 and st["clear"] >= 20, lab


PARTS = [Part("solids", hidden.case(), run, 6000, 90000),
         Part("fine", hidden.fine_case(), run, 4000, 60000),
         Part("large", hidden.large_case(), run, 160, 3000)]
