"""Writes DESIGN.md (documentation only; no check uses this)."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import props
S = {json.loads(l)["id"]: json.loads(l) for l in open("properties.jsonl")}
# id: (spec modules, oracle/decision, bounds, why beyond tests)
D = {
"P01": ("TrapSystem, RegistryModel, RegistryTrace", "The state machine of the collection (sequence of electrodes with name, dc, rf). TLC enumerates all histories of length 3 of list operations, bulk and single assignments and lookups over systems of all electrode classes, checks its own invariants, and prints each; the driver replays them, RegistryTrace re-executes the machine next to the recorded events and compares every reported vector and lookup. Shared electrode objects (the same one twice) and lists of them are part of the model.", "histories of length 3 exhaustively (5 in thorough), random to 25"),
"P02": ("TrapSystem, RegistryModel (mode with), RegistryTrace", "Stack of saved voltages; actions Enter/Exit/Raise/assignment failing in the middle. Properties RestoresProp and FailedOpsAreNoOps on the model, trace validation on the code.", "all nestings and failures to depth 3 (4), random to 25"),
"P03": ("SystemTrace", "Linear combination of recorded unit responses recomputed in 40 digits; the response of one electrode at another batch/ordering/contiguity must be the same.", "random mixed systems, orders 0..5, structured voltages (zeros, equal, tiny, cancelling)"),
"P04": ("Pseudo, SystemTrace", "Leibniz rule over all subsets of indices on exactly known harmonic functions and on recorded tensors; never the code's formula.", "orders 0..4, refusals outside"),
"P05": ("Tensor, TensorModel, TensorTrace", "Axis multiset arithmetic: every tuple of axes of every order; TensorModel proves completeness, tracelessness and selection of the specified expansion.", "every index tuple of orders 0..5; random values of all batch shapes"),
"P06": ("TensorTrace", "Explicit multi-index sum.", "ranks 0..5, batch shapes with 0..3 axes"),
"P07": ("Harm, TensorTrace", "Taylor expansion along 12 generic directions (they determine all coefficients).", "every component of every order alone, thus all inputs by linearity"),
"P08": ("Fields, FieldsModel, Series, FieldTrace", "Solid angle and jets (truncated Taylor series) of the Biot-Savart edge field in 40 digits: directional derivatives to order 5 from series arithmetic, no formula shared with the code. FieldsModel checks the edge field itself.", "random/structured polygons in five units of length, 1..120 edges, collinear, degenerate, long and short edges; points above, below, in the plane, on axes and edge extensions"),
"P09": ("Fields, FieldTrace, GeomTrace", "Jets of z/r^3; area/centroid certificates; far field.", "orders 0..5"),
"P10": ("Fields, FieldTrace", "Sum of solid angles of the polygons the mesh bounds (shared edges with potential differences).", "orders 0..5, shuffled and reversed edges"),
"P11": ("Fields, FieldTrace", "The specified field at mirrored points, summed.", "expansion to 5, orders 0..5, three kinds"),
"P12": ("Homog, FieldTrace", "Twelve metamorphic relations, with tensors transformed by the specification.", "orders 0..5"),
"P13": ("FieldTrace", "Compiled and Python results of one event, and the accumulation contract (identity of out, inputs untouched).", "all kinds, orders, covers, preset out"),
"P14": ("GridTrace", "Trilinear weights recomputed from origin/spacing.", "1..5 points per axis, inside/on/outside"),
"P15": ("GridTrace", "Finite difference of the named component (which one decided by Tensor), exactness on quadratics.", "to order 5, given 1..3 orders"),
"P16": ("GridTrace", "Index-to-point arithmetic in all representations.", "2 and 3 dimensions, 1..5 per axis"),
"P17": ("Region, GeomTrace", "Shoelace sum in 40 digits.", "random simple polygons, sizes, offsets"),
"P18": ("GeomTrace", "Partition by thresholds, sum of unit responses, mean voltages.", "0..6 electrodes, ties, duplicate/empty names, empty groups"),
"P19": ("Linear, Rows, OptTrace", "Certificate: primal feasibility and a dual vector found by the driver, verified by TLC (weak duality), which bounds the strength of every admissible voltage set; infeasibility and unboundedness by Farkas vectors.", "2..7 electrodes"),
"P20": ("Rows, Linear, OptTrace", "Duality relations of rows recomputed in local frames; share minimal by certificate.", "3..8 electrodes"),
"P21": ("Rows, Tensor, OptTrace", "Row from recorded unit tensors, rotated by the specification, Laplace recombination by Tensor.", "all names of orders 0..4, all combinations of bounds"),
"P22": ("Linear, Rows, OptTrace", "KKT/dual certificate for the whole stacked problem.", "1..5 configurations, orders 0..3, norms 1,2,inf, strides"),
"P23": ("Motion, MotionTrace", "Exact polynomial potentials (gradient and curvature recomputed at the point returned); eigenpairs by residual, orthonormality, order.", "all subsets of axes, rotated frames"),
"P24": ("Cplx, Motion, MotionTrace", "Residual of the harmonic balance for every pair returned, completeness via traces (sum of eigenvalues and squares).", "1..3 dimensions, 1..3 harmonics, cutoffs to 3"),
"P25": ("MathieuEq, MathieuTrace", "TLC integrates Mathieu's equation by Taylor series and the monodromy matrix; exponents by cos(pi nu).", "(a,q) over the stability region and outside"),
"P26": ("MotionTrace", "Every number of the report text, parsed, against query results and unit conversions.", "report inputs incl. rf scale, saddles present/absent/near"),
"P27": ("Motion, MotionTrace", "The specification integrates the same orbit with the same step and its own acceleration.", "1..3 varied axes, any frame"),
"P28": ("Region, RegionOps, PolyTrace", "Winding numbers at all cell centres of the arrangement (decides equality of regions exactly on layouts of cells); generic polygons at random points.", "onions to depth 4, islands, plates with many holes of very different sizes"),
"P29": ("RegionOps, RegionModel, PolyTrace", "Electrodes as sets of cells; set algebra of overlap/unify/restrict/filter; RegionModel checks the laws for all layouts.", "all layouts of 2 electrodes on 2 (3) cells x 2 operations; random on 5x5"),
"P30": ("Region, PolyTrace", "Distances of every vertex and of sample points to the original boundary; smoothing bound.", "widths around feature size"),
"P31": ("RegionOps, PolyTrace", "First-fit assignment as a fold over pads.", "pads inside/on side/on corner, all start corners"),
"P32": ("RegionOps, PolyTrace", "Flood fill across cells that are no walls.", "squares of 4..10 cells"),
"P33": ("PolyTrace", "Round trip with database unit as tolerance; gap path coverage.", "several scales and units"),
"P34": ("RegionOps, PolyTrace", "Multiset of boundary steps.", "layouts of cells"),
"P35": ("Rot, RotModel, RotTrace", "Product of elementary rotations by convention name; RotModel proves them proper.", "24 conventions x 64 quarter-turn triples exhaustively, random, gimbal lock; both implementations"),
"P36": ("Rot, RotModel, RotTrace", "Quaternion algebra, the matrix homomorphism checked in the model.", "3^8 integer products (bilinear, so all), random, special"),
"P37": ("Homog, TransfTrace", "Action on points in general position, least-squares optimality certificate.", "all makers/recoveries, both implementations"),
"P38": ("QueryModel, PureTrace", "Fingerprint of the whole system before and after every event; equality of repeated answers and with a freshly built system.", "histories to depth 2 (3) plus random"),
"P39": ("AdjustModel, AdjustTrace", "State machine of the adjuster (accepted voltages, histories, proposal).", "histories to depth 3 (4), random to 12"),
"P40": ("Xic, XicModel, XicTrace", "Line automaton.", "all layouts to 5 (6) lines, random to 40 points a line"),
"P41": ("SphHarm, SphIndex, SphModel, SphTrace", "Legendre recurrences in 40 digits; orthonormality proved in the model.", "single coefficients to size 4 (6), random to 7 (12)"),
"P42": ("Rot, ArcballModel, ArcballTrace", "State machine of the trackball on five axis points (exact integer matrices), reals in the trace.", "histories to 4 (6) inputs"),
"P43": ("Plot, PlotModel, PlotTrace", "What each artist must contain.", "all small contour plots; rendered pixels"),
"P44": ("Region, PolyTrace", "Exact orientation predicates on lattice rings decide simplicity, containment and separation.", "all rings of 3 (4) points of the 3x3 lattice, random general position"),
"P45": ("AdaptModel, AdaptTrace", "Jumps and areas of every mesh from the recorded requests to a stand-in mesh generator; electrodes, voltages and strength of the last mesh within the limit.", "all runs of two rounds over meshes of up to 3 (4) triangles with three levels; random Delaunay meshes, symmetries, fixed electrodes; real objectives"),
}
HEAD = open("harness/design_head.md").read()
TAIL = open("harness/design_tail.md").read()

out = [HEAD, "## Properties\n"]
for pid in sorted(S):
    m, o, b = D[pid]
    out.append("### %s %s\n\n* Specification: %s\n* Decided by: %s\n* Bounds: %s\n* Check: %s. %s\n" % (
        pid, S[pid]["title"], ", ".join("`%s`" % i for i in m.split(", ")), o, b,
        props.PROPS[pid]["technique"], props.PROPS[pid]["note"]))
fixed = [l[7:].strip() for l in open("KNOWN-FINDINGS.txt") if l.startswith("fixed:")]
found = [l for l in open("KNOWN-FINDINGS.txt") if l.startswith("finding:")]
out.append("## Defects found\n\n%d defects of wwcphy/electrode were found by the checks and repaired with `fix:` commits; %d known findings remain.\n" % (len(fixed), len(found)))
for l in fixed:
    p, c, t = l.split(None, 2)
    out.append("* %s (%s): %s" % (p.split("=")[1], c, t))
out.append("")
out.append(TAIL)
out.append("## Planted bugs\n\nEach passes the existing tests; all are caught by the quick check of the property named.\n\n| bug | caught by | what it breaks | needs |\n|---|---|---|---|")
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d))
    out.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
open("DESIGN.md", "w").write("\n".join(out) + "\n")
