"""What each check runs: models, generators, drivers and judges."""

PROPS = {}
BASE = ["TLC 1.8.0 and the Num override module compute correctly",
        "the code is exercised through its public API in CPython 3.12 with numpy 1.26"]


GENREP = "replaying every behaviour TLC enumerates from the model, plus random longer ones, and validating the recorded traces with TLC"
TRACE = "trace validation: TLC evaluates the specification on every recorded input/output event of the real code"


def prop(pid, technique=TRACE, note="", level="model_checking", assumptions=()):
    def deco(f):
        PROPS[pid] = {"run": f, "level": level, "technique": technique, "note": note,
                      "assumptions": BASE + list(assumptions)}
        return f
    return deco


def registry_model(mode, depth):
    return """SPECIFICATION Spec
CONSTANTS Depth = %d
 Mode = "%s"
INVARIANT TypeOK
PROPERTIES RestoresProp FailedOpsAreNoOps
CHECK_DEADLOCK FALSE
""" % (depth, mode)


@prop("P01", GENREP, "All histories of the model of length 3 over systems of up to 3 electrodes of every class (thorough: also of length 5 with one operation of each kind), and random histories to length 25.")
def p01(c):
    gen, n = c.generate("RegistryModel", registry_model("reg", 3), "gen.ndjson")
    if c.thorough:
        c.generate("RegistryModel", registry_model("few", 5), "gen5.ndjson")
        with open(gen, "a") as f:
            f.write(open(c.path("gen5.ndjson")).read())
    c.judge("RegistryTrace", c.drive("registry.py", inp=gen, args=["reg"]),
            expect=["setdcs", "setrfs", "setnames", "append", "pop", "setone", "insert", "delete", "replace", "reverse"])


@prop("P02", GENREP, "All nestings/failures of the model to depth 3 (thorough 4), and random histories to length 25.")
def p02(c):
    gen, n = c.generate("RegistryModel", registry_model("with", c.n(3, 4)), "gen.ndjson")
    c.judge("RegistryTrace", c.drive("registry.py", inp=gen, args=["with"]),
            expect=["enter", "exit", "setdcs", "append"])


@prop("P05", "exhaustive trace validation over all index tuples of orders 0..5, and on random tensors of every batch shape",
      "Names and index maps: every tuple. Values: linear maps, checked on random and integer tensors. TensorModel proves the specified expansion traceless.")
def p05(c):
    c.model("TensorModel", "SPECIFICATION Spec\nINVARIANT Complete Traceless Selected\nCHECK_DEADLOCK FALSE\n")
    c.judge("TensorTrace", c.drive("tensor.py", args=["P05"]), expect=["names", "component", "expand", "select"])


@prop("P06", note="Ranks 0..5, several batch shapes, orthogonal, singular and permuting matrices.")
def p06(c):
    c.judge("TensorTrace", c.drive("tensor.py", args=["P06"]), expect=["rotate", "equal"])


@prop("P07", note="Every component of orders 0..5 on its own (the map is linear) against the Taylor expansion in 12 generic directions, which determine all coefficients.")
def p07(c):
    c.judge("TensorTrace", c.drive("tensor.py", args=["P07"]), expect=["spherical", "equal"])


@prop("P03", note="Random systems mixing all electrode kinds, orders 0..5; the sum is recomputed by TLC from recorded unit responses.")
def p03(c):
    c.judge("SystemTrace", c.drive("potentials.py", args=["P03"]), expect=["sum"])


@prop("P04", note="Leibniz rule on exactly known harmonic functions (exponentials with null vectors), orders 0..4, and on the recorded tensors of real electrodes.")
def p04(c):
    c.judge("SystemTrace", c.drive("potentials.py", args=["P04"]), expect=["pseudo", "scale", "refuse"])


@prop("P08", note="Orders 0..5 at points above, below, on the axes and extensions of random polygons, along 2k+1 directions.")
def p08(c):
    c.model("FieldsModel", "SPECIFICATION Spec\nINVARIANT Slope Higher Sides\nCHECK_DEADLOCK FALSE\n")
    c.judge("FieldTrace", c.drive("fields.py", args=["P08"]), expect=["polygon"])


@prop("P09", note="Orders 0..5 of random pixels; conversion of polygons and its far field.")
def p09(c):
    c.judge("FieldTrace", c.drive("fields.py", args=["P09"]), expect=["pixel", "convert", "far"])


@prop("P10", note="Random meshes with shared vertices and edges, orders 0..5; meshes of polygon systems.")
def p10(c):
    c.judge("FieldTrace", c.drive("fields.py", args=["P10"]), expect=["mesh", "frommesh"])


@prop("P11", note="Image sums up to order 5 for the three kinds of surface electrodes, orders 0..5.")
def p11(c):
    c.judge("FieldTrace", c.drive("fields.py", args=["P11"]), expect=["covered", "cover", "vanish"])


@prop("P12", note="Twelve relations between two evaluations of the code, orders 0..5, on random polygons.")
def p12(c):
    c.judge("FieldTrace", c.drive("fields.py", args=["P12"]), expect=["symmetry", "additive"])


@prop("P13", note="All kinds of electrodes, orders 0..5.")
def p13(c):
    c.judge("FieldTrace", c.drive("fields.py", args=["P13"]), expect=["kernels", "out"])


@prop("P14", note="Random data, shapes with one to five points per axis, points inside, on and outside the grid, orders 0..5.")
def p14(c):
    c.judge("GridTrace", c.drive("grids.py", args=["P14"]), expect=["interp"])


@prop("P15", note="Random data to order 5 with one to three orders given, repeated generation, harmonic quadratics, field results with and without field; VTK files as a stand-in for the reader describes them.")
def p15(c):
    c.judge("GridTrace", c.drive("grids.py", args=["P15"]), expect=["generate", "exact", "result", "vtk"])


@prop("P16", note="Grids of two and three dimensions with one to five points per axis.")
def p16(c):
    c.judge("GridTrace", c.drive("grids.py", args=["P16"]), expect=["grid", "index", "equal"])


@prop("P17", note="Random simple polygons of both senses, several sizes and positions.")
def p17(c):
    c.judge("GeomTrace", c.drive("geom.py", args=["P17"]), expect=["area", "orient"])


@prop("P18", note="Systems of up to six polygon electrodes, voltages on and between thresholds, empty groups, common cover settings.")
def p18(c):
    c.judge("GeomTrace", c.drive("geom.py", args=["P18"]), expect=["group"])


DUAL = "trace validation with certificates: TLC checks, for every recorded result, the constraints and a dual certificate that proves it optimal (or its refusal justified)"


@prop("P19", DUAL, "Random systems of 2..7 electrodes; feasible, infeasible, contradictory and unbounded problems.")
def p19(c):
    c.judge("OptTrace", c.drive("opt.py", args=["P19"]), expect=["optimize", "converges"])


@prop("P20", note="Random systems of 3..8 electrodes with up to five derivatives in local frames and additional objectives.")
def p20(c):
    c.judge("OptTrace", c.drive("opt.py", args=["P20"]), expect=["shims", "impossible", "refused"])


@prop("P21", note="All derivative names of orders 0..4, rotated frames, nested combinations, all combinations of bounds.")
def p21(c):
    c.judge("OptTrace", c.drive("opt.py", args=["P21"]), expect=["row", "bounds"])


@prop("P22", DUAL, "Up to five configurations with up to three difference terms of orders 0..3, all norms, smoothing, strides.")
def p22(c):
    c.judge("OptTrace", c.drive("opt.py", args=["P22"]), expect=["solve", "converges"])


@prop("P23", note="Anharmonic traps with exactly known potentials; all subsets of axes, rotated frames, several methods; the curvature is judged by an eigenvector certificate.")
def p23(c):
    c.judge("MotionTrace", c.drive("motion.py", args=["P23"]), expect=["minimum", "saddle", "modes", "found"])


@prop("P24", note="Coefficient matrices of one to three dimensions, one to three harmonics, cutoffs to 3; systems with exact curvatures.")
def p24(c):
    c.judge("MotionTrace", c.drive("motion.py", args=["P24"]), expect=["floquet", "sysfloquet"])


@prop("P26", note="Every number of the report against the corresponding query and unit conversion.")
def p26(c):
    c.judge("MotionTrace", c.drive("motion.py", args=["P26"]), expect=["report"])


@prop("P27", note="The specification integrates the orbit itself with its own acceleration; the driver passes the same integration step to the code.")
def p27(c):
    c.judge("MotionTrace", c.drive("motion.py", args=["P27"]), expect=["trajectory"])


@prop("P25", note="The specification integrates Mathieu's equation itself (Taylor series and monodromy); (a, q) throughout the first stability region and outside, all methods, derivatives to order 5, times to 60.")
def p25(c):
    c.judge("MathieuTrace", c.drive("mathieu.py"), expect=["solution", "initial", "exponent", "mode"])


REGION = """SPECIFICATION Spec
CONSTANTS Cells = %d
 Depth = %d
 Gen = %s
INVARIANT Laws
PROPERTY Step
CHECK_DEADLOCK FALSE
"""


@prop("P28", note="Layouts of cells (winding numbers at every cell centre, decided exactly) and in general position (random points); rings in any order, sense, start and memory order, onions to depth 4.")
def p28(c):
    c.judge("PolyTrace", c.drive("polys.py", args=["P28"]), expect=["to_system", "from_system"])


@prop("P29", GENREP, "All layouts of two electrodes on two cells (thorough: three cells) under all histories of two operations from the model (a sample is replayed), random histories on 5x5 cells and in general position.")
def p29(c):
    c.model("RegionModel", REGION % (c.n(2, 4), c.n(2, 1), "FALSE"))
    gen, n = c.generate("RegionModel", REGION % (c.n(2, 3), c.n(2, 2), "TRUE"), "gen.ndjson")
    c.judge("PolyTrace", c.drive("polys.py", inp=gen, args=["P29"]), expect=["op"])


@prop("P30", note="Gap widths from far below to comparable with the features; points at and around half a gap from every kind of side and corner.")
def p30(c):
    c.judge("PolyTrace", c.drive("polys.py", args=["P30"]), expect=["gaps", "simplify", "smooth"])


@prop("P44", note="Every ring of three and four points of a 3 x 3 lattice (quick: a sample of the latter), larger random rings, polygons with holes and parts in general position, decided exactly; validity in touching special cases with holes is left out.")
def p44(c):
    c.judge("PolyTrace", c.drive("polys.py", args=["P44"]), expect=["validate"])


@prop("P31", note="Pads inside, on sides and on corners of cells, decided exactly; all four start corners.")
def p31(c):
    c.judge("PolyTrace", c.drive("polys.py", args=["P31"]), expect=["assign", "pads"])


@prop("P32", note="The specification floods the cells of the lattice across everything that is not a wall; squares of 4 to 10 cells.")
def p32(c):
    c.judge("PolyTrace", c.drive("polys.py", args=["P32"]), expect=["data"])


@prop("P33", note="Libraries are saved to and loaded from memory with gdsii; several scales and units.")
def p33(c):
    c.judge("PolyTrace", c.drive("polys.py", args=["P33"]), expect=["library", "back", "clip"])


@prop("P34", note="Layouts of cells: boundary steps compared as sets, and counted.")
def p34(c):
    c.judge("PolyTrace", c.drive("polys.py", args=["P34"]), expect=["network"])


def rot_model(mode):
    return """SPECIFICATION Spec
CONSTANT Mode = "%s"
INVARIANTS Proper OneToOne Homomorphism
CHECK_DEADLOCK FALSE
""" % mode


@prop("P35", GENREP, "All 24 conventions with all triples of quarter turns, which determine the entries for all angles; random angles and matrices at and near gimbal lock.")
def p35(c):
    gen, n = c.generate("RotModel", rot_model("euler"), "gen.ndjson")
    c.judge("RotTrace", c.drive("rots.py", inp=gen, args=["P35"]), expect=["euler", "back", "refuse"])


@prop("P36", GENREP, "All products of integer quaternions with entries -1..1, which determine the bilinear product; random ones, half turns, interpolation with spins and beyond the end points.")
def p36(c):
    gen, n = c.generate("RotModel", rot_model("quat"), "gen.ndjson")
    c.judge("RotTrace", c.drive("rots.py", inp=gen, args=["P36"]),
            expect=["quat", "frommatrix", "nearest", "about", "slerp", "random"])


@prop("P37", note="Matrices are decided by what they do to seven points in general position (affine maps by four, projective ones by five); least squares fits by a certificate of optimality.")
def p37(c):
    c.judge("TransfTrace", c.drive("transf.py", args=["P37"]),
            expect=["make", "recover", "clip", "refuse", "compose", "decompose", "concat", "inverse", "same", "fit", "cell", "norm", "pair", "uniform"])


@prop("P42", GENREP, "Every transition of the trackball between the five axis points of its sphere, up to a number of inputs, exactly; random histories of inputs with arbitrary points, axes, places and accelerations.")
def p42(c):
    gen, n = c.generate("ArcballModel", """SPECIFICATION Spec
CONSTANT Depth = %d
VIEW state
INVARIANTS Oriented AboutAxis TwiceTheArc Returns
CHECK_DEADLOCK FALSE
""" % c.n(4, 6), "gen.ndjson", workers=1)
    c.judge("ArcballTrace", c.drive("arcball.py", inp=gen), expect=["walk", "ball", "point", "circle", "nearest", "refuse"])


@prop("P38", GENREP, "All histories of the model to depth 2 (thorough 3) of six classes of queries among ten kinds of changes, each question asked again at the end; random histories; on eight mixtures of all five kinds of electrodes. Every answer also against that of a system built afresh.")
def p38(c):
    gen, n = c.generate("QueryModel", """SPECIFICATION Spec
CONSTANT Depth = %d
INVARIANTS Functional BlocksNest
PROPERTY Observers
CHECK_DEADLOCK FALSE
""" % c.n(2, 3), "gen.ndjson")
    c.judge("PureTrace", c.drive("pure.py", inp=gen), expect=["evaluate", "search", "solve", "report", "draw", "fail", "geo", "rfscale", "append", "pop", "enter", "exit", "setnames", "setone"])


@prop("P39", GENREP, "All histories of the model to depth 3 (thorough 4) of proposals, what-ifs, accepted, rejected, user-supplied steps, settings and regroupings on exactly quadratic traps; random ones to length 12, also on a surface trap of polygons.")
def p39(c):
    gen, n = c.generate("AdjustModel", """SPECIFICATION Spec
CONSTANT Depth = %d
INVARIANT OneEntryEach
PROPERTIES RejectRestores AcceptShows AppendOnly RegroupVoids
CHECK_DEADLOCK FALSE
""" % c.n(3, 4), "gen.ndjson")
    c.judge("AdjustTrace", c.drive("adjust.py", inp=gen), expect=["init", "set", "propose", "whatif", "change", "accept", "reject"])


@prop("P45", GENREP, "All runs of the model of up to two rounds over meshes of at most 3 triangles (thorough: 4) with three levels of potential, replayed on a stand-in mesh generator; random Delaunay meshes with planned voltages, symmetries, fixed electrodes and units; real potential objectives on polygon electrodes.",
      assumptions=["the mesh generator (not installed) answers like Triangle: counter-clockwise triangles, neighbour k opposite corner k, -1 at borders"])
def p45(c):
    gen, n = c.generate("AdaptModel", """SPECIFICATION Spec
CONSTANTS Rounds = 2
 Limit = %d
INVARIANTS Calm Both Alone
CHECK_DEADLOCK FALSE
""" % c.n(3, 4), "gen.ndjson")
    c.judge("AdaptTrace", c.drive("adapt.py", inp=gen), expect=["adapt", "transform"])


@prop("P40", GENREP, "All layouts of the model to 5 lines (thorough 6) of polygons, other records, continuation and blank lines; random longer ones with random numbers, spacing and line ends.")
def p40(c):
    gen, n = c.generate("XicModel", """SPECIFICATION Spec
CONSTANT Depth = %d
INVARIANT OnePerRecord
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
""" % c.n(5, 6), "gen.ndjson")
    c.judge("XicTrace", c.drive("xicfile.py", inp=gen), expect=["poly", "cont", "other", "blank"])


@prop("P41", note="Every single coefficient for sizes up to 4 (thorough 6), which determine the linear maps; random coefficients and polynomials to size 7 (12); the specified harmonics are proved orthonormal under the quadrature for sizes up to 4 (SphModel). Special axes, broadcasting, all spherical grids to size 4 at up to three origins.")
def p41(c):
    c.model("SphModel", "SPECIFICATION Spec\nINVARIANTS Orthonormal Places Filled\nCHECK_DEADLOCK FALSE\n")
    c.judge("SphTrace", c.drive("sph.py"),
            expect=["grid", "synthesis", "analysis", "round", "back", "to_cartesian", "to_spherical", "gradient", "sgrid"])


@prop("P43", GENREP, "All contour plots of the model (three sections, three kinds, grids of two or three nodes per axis, lines or filled, grid given or default), shown on matplotlib's Agg backend for random quadratic electrodes; random larger ones; voltages, signs, palettes, labels and rendered pixels of random polygon and point electrodes.")
def p43(c):
    gen, n = c.generate("PlotModel", """SPECIFICATION Spec
CONSTANT Sizes = {2, 3}
INVARIANTS InSection NoneTwice Complete AxesDiffer
CHECK_DEADLOCK FALSE
""", "gen.ndjson")
    c.judge("PlotTrace", c.drive("plots.py", inp=gen), expect=["contour", "voltages", "signs", "palette", "pixels", "text", "empty"])
