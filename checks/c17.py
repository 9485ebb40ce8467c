"""C17: everything visible is drawn."""
import draw
import hidden
import hlr
from runner import Part

PROPERTY = "C17"
TECHNIQUE = "property-based testing: random closed solids and views against a brute-force point-wise visibility oracle"
NOTE = "Every clearly visible sample of every outline or feature edge is drawn, on all generated solids; points within the stated margins of an occlusion boundary are not judged."
RULE = ("as C16, other direction: every outline/feature edge is sampled and each sample that no facet "
        "comes near to hiding must be covered by a drawn line. Non-trivial: at least 20 clearly visible "
        "samples and some edge partly hidden, so that lines had to be cut.")
ASSUMPTIONS = ["margins: 0.3pt sideways, 1e-6 of the size in depth; points nearer than that to an "
               "occlusion boundary are not judged"]


def run(c):
    r = hidden.setup(c)
    if r is None:
        return False, ["degenerate"]
    T, sc, segs, k = r
    m, g, tol = 0.3 / k, 1e-6 * sc.size, 2.5e-3 / k
    msg, st = hlr.check_completeness(sc, segs, tol, m, g)
    if msg:
        raise draw.Violation(msg)
    lab = hidden.labels(c, T, sc)
    if st["partial"]:
        lab.append("partial occlusion")
    return st["partial"] > 0 and st["clear"] >= 20, lab


PARTS = [Part("solids", hidden.case(), run, 6000, 90000),
         Part("fine", hidden.fine_case(), run, 4000, 60000),
         Part("large", hidden.large_case(), run, 160, 3000)]
