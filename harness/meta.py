#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run it to rewrite both)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, E, U, P, X, C, G, T = ["electrode/" + i for i in (
    "system.py", "electrode.py", "utils.py", "polygons.py", "expressions.py",
    "cexpressions.pyx", "grid.py", "transformations.py")]
PC, SA, MA, AD, XI, SH = ["electrode/" + i for i in (
    "pattern_constraints.py", "saddle.py", "mathieu.py", "adjust.py", "xic.py",
    "spherical_harmonics.py")]
L = []


def p(pid, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if "state" in kw:
        a["state"] = [{"name": n, "meaning": m} for n, m in kw.pop("state")]
    a.update(kw)
    L.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


# ---- electrode collection ---------------------------------------------------
p("P01", "Electrode collection: voltages, names and lookup stay consistent",
  "After any sequence of list operations and bulk or single assignments of names, dc and rf voltages, the name, dc and rf vectors a system reports list exactly the current values of its electrodes in order. An integer lookup returns the electrode at that position (negative positions from the end, IndexError outside), a name lookup the first electrode carrying that name and nothing if there is none. A bulk assignment sets the electrodes position by position, and one with fewer or more entries touches only the positions both have.",
  ["histories"], "every finite history of appends, removals and assignments over systems with duplicate, empty and changing names",
  "Tests look up one electrode by name in one fixed system and never assign in sequence.",
  [S], [("name/dc/rf vectors", S + " System.names/dcs/rfs"), ("lookup", S + " System.__getitem__")],
  state=[("electrodes", "ordered electrodes, each with name, dc, rf")])
p("P02", "Temporary voltages are always undone",
  "Inside a temporary-voltage block exactly the given dc and rf voltages are in force and the ones not given are unchanged. When the block ends, normally or by an exception from the body or from the voltage assignment itself, every electrode the block covered has the dc and rf voltages it had on entry for each kind that was given, for any nesting of blocks. An exception raised in the body reaches the caller.",
  ["histories", "fault_sequences"], "every nesting of blocks with any combination of given kinds, short, long or failing voltage lists, and exits by return or exception",
  "Tests use one unnested block that ends normally.",
  [S], [("temporary voltages", S + " System.with_voltages")],
  state=[("stack", "saved voltages of the open blocks")])
p("P03", "Electrical potential is the voltage-weighted sum of the electrodes",
  "For every system and derivative order, the dc (rf) electrical potential derivative is the sum over all electrodes of their dc (rf) voltage times the response the electrode gives at unit voltage, whatever the order of the electrodes, the number of points evaluated at once and the way the points are given. The per-electrode responses list each electrode's unit contribution at its own position, independent of all voltages. The instantaneous potential at phase t is dc + cos(t) rf, and asking for the expanded form only rewrites the same reduced tensor.",
  ["inputs", "configurations"], "every mixture of electrode kinds, voltages incl. zero and negative, point batches and orders 0..5",
  "Tests evaluate one electrode or one trap at single points with fixed voltages.",
  [S, E], [("superposition", S + " electrical_potential, individual_potential, time_potential"), ("out accumulation", E + " *.potential(out=)")])
p("P04", "Pseudopotential and total potential and all their derivatives",
  "The pseudopotential is the squared rf scale times the squared gradient of the rf potential, and its derivative tensors up to order 4 are the exact partial derivatives of that function, fully symmetric in their indices. The total potential is dc potential plus pseudopotential, and each of the three kinds can be asked for separately at every order. The rf scale is sqrt(q/m)/(2 l Omega), orders above 4 and unknown kinds are refused.",
  ["inputs", "configurations"], "every rf and dc potential (locally a harmonic function), scale and derivative order 0..4",
  "Tests compare a few low order values of single traps, orders 3 and 4 of the pseudopotential are not tested at all.",
  [S], [("product rule", S + " pseudo_potential"), ("sum", S + " potential"), ("scale", S + " rf_scale")])
# ---- tensors ----------------------------------------------------------------
p("P05", "Reduced derivative tensors: naming, expansion and selection",
  "For orders 0 to 5 the 2n+1 reduced components expand to the complete symmetric traceless derivative tensor of every harmonic function, and selecting the components from it gives the reduced form back, for any number of leading batch dimensions. Names, axis tuples, flat indices and (order, index) pairs convert into each other consistently, and any derivative name resolves to the one or two reduced components that yield it. The recipe that builds a component from a lower order names a component and an axis whose derivative it is.",
  ["inputs", "programs"], "all 3^n index tuples of every order up to 5 and every harmonic tensor",
  "Tests round-trip random reduced tensors, which accepts any consistent permutation or wrong Laplace pair of low weight.",
  [U], [("name tables", U + " _populate_maps, name_to_deriv, deriv_to_reduced_idx, construct_derivative"), ("expand/select", U + " expand_tensor, select_tensor"), ("Laplace pairs", U + " find_laplace")])
p("P06", "Tensor rotation is the multilinear change of coordinates",
  "Rotating a batch of rank-n tensors with a matrix contracts every tensor index with the first index of the matrix, leaves batch dimensions alone and is exact for any matrix, also non-orthogonal ones. Rotating with a product is rotating successively, with the identity nothing changes, and the derivatives of a function in rotated coordinates are the rotated derivatives.",
  ["inputs"], "tensors of rank 0..5 with any batch shape, and arbitrary 3x3 matrices",
  "Tests use the identity and single rotations of one matrix.",
  [U], [("contraction", U + " rotate_tensor")])
p("P07", "Conversion of derivatives to spherical harmonics",
  "For every order 0 to 5 the conversion is linear and expresses the directional derivative of the harmonic function along any unit vector n as an order-dependent constant times the sum over m from -l to l of coefficient times real spherical harmonic of n. Thus components of different m do not mix, and under a rotation of the coordinates the norm of the coefficient vector is preserved.",
  ["inputs"], "all harmonic tensors of order 0..5 and all directions",
  "Tests check one rotation-invariant number for one trap.",
  [U], [("conversion", U + " cartesian_to_spherical_harmonics")])
# ---- electrode potentials ---------------------------------------------------
p("P08", "Polygon electrodes solve the Dirichlet problem exactly",
  "At every point off the electrode plane the potential of a polygonal patch at unit voltage in a grounded plane is its signed solid angle over 2 pi, and all derivatives up to order 5 are the exact derivatives of it, to floating point accuracy. Clockwise paths count negatively, so that a hole is an inner path of the opposite sense, and several paths add.",
  ["inputs"], "simple polygons of any vertex count, convex or not, holes, several paths, points above and below the plane, orders 0..5",
  "Tests compare a few square or large electrodes at points on the symmetry axis with low orders.",
  [X, C, E], [("edge sum", C + " polygon_potential / " + X + " polygon_potential"), ("formulas", X + " edge_potential_expr")])
p("P09", "Point pixel electrodes are dipole layers of the given area",
  "A point pixel of area a contributes a/(2 pi) z/r^3 at unit voltage and every derivative up to order 5 is the exact derivative of that; pixels add. Converting a polygon electrode gives for each path a pixel of its signed area at its centroid with the same name, voltages and cover settings, whose potential approaches the polygon's as the distance grows.",
  ["inputs"], "any set of pixels, points above and below, orders 0..5; any polygon electrode",
  "Tests compare few pixels at single points and low orders.",
  [X, C, E], [("formulas", X + " point_potential_expr"), ("conversion", E + " PolygonPixelElectrode.to_points")])
p("P10", "Mesh electrodes equal the polygons they describe",
  "A mesh whose edges bound polygons, given in any order, gives at every point and order up to 5 the sum over polygons of the polygon's potential value times the unit potential of that polygon, also when edges share vertices or faces. Building a mesh from a system of polygon electrodes reproduces the dc potential of the system.",
  ["inputs", "configurations"], "meshes with shared vertices and any edge order, voltages and covers",
  "Mesh electrodes are marked untested and have no test.",
  [E, X, C], [("mesh sum", C + " mesh_potential"), ("from system", E + " MeshPixelElectrode.from_polygon_system")])
p("P11", "The cover plane is a sum of mirror images",
  "With a cover at height h and expansion order n every surface electrode's potential and derivatives are the sum over m = -n..n of the uncovered ones shifted by 2 m h along z, for polygon, point and mesh electrodes; order 0 ignores the height. The cover electrode itself contributes voltage z / h, its constant gradient along z and nothing in higher orders. With growing n the surface electrodes vanish on the cover.",
  ["inputs", "configurations"], "any electrode, cover height and expansion order, orders 0..5",
  "Tests compare one large electrode with a loose tolerance.",
  [E, X, C], [("image sum", C + " potential loops"), ("cover", E + " CoverElectrode.potential")])
p("P12", "Geometric symmetries of surface electrode potentials",
  "The potential does not depend on where a polygon path starts or on vertices inserted on an edge, changes sign with its sense, and adds when a polygon is cut in two. Translating, rotating or mirroring electrode and point together transforms derivatives as tensors, and scaling lengths by s scales an order-k derivative by s^-k. Mirroring the point at the plane makes the potential of an uncovered patch odd in z.",
  ["inputs"], "all polygons, rigid motions, scalings and orders 0..5",
  "Tests check the z symmetry of one electrode.",
  [X, C, E], [("edge formula", X + " edge_potential_expr")])
p("P13", "Compiled and pure Python kernels agree and accumulate",
  "The compiled and the Python potential functions return the same values for the same arguments for point, polygon and mesh electrodes, every order and cover setting. Given an output array, every electrode kind adds its contribution to it and returns that array, otherwise it returns a new one of shape (points, 2 order + 1) with the contribution alone; inputs are left untouched.",
  ["inputs", "configurations"], "all three kernels, four surface and grid electrode kinds, orders 0..5, batches incl. empty",
  "Tests run whichever kernel is installed and never pass an output array.",
  [C, X, E], [("C kernels", C), ("Python kernels", X), ("out", E + " *.potential")])
p("P14", "Grid electrodes interpolate their data",
  "A grid electrode's order-k derivative at a point is the trilinear interpolation of its order-k data at (x - origin)/spacing, clamped to the nearest grid face outside, times the voltage. On grid points it is the datum itself, and origin, anisotropic spacing and non-cubic shapes are all respected.",
  ["inputs"], "any grid shape, spacing, origin, data and points inside, on and outside the grid, orders present",
  "Tests use one cubic grid with points inside.",
  [E], [("interpolation", E + " GridElectrode.potential")])
p("P15", "Generating grid derivatives",
  "Generating up to a maximum order leaves exactly that many derivative orders, does not touch data that was given, and every generated component is the finite difference of the component of the order below along the axis that together name it. For data of a function of degree at most 2 in each axis inside the grid this is the exact derivative. A grid electrode made from a field result, or from a VTK structured-points file, takes potential, field, origin and spacing from it, whatever else the file holds in whatever order.",
  ["inputs", "configurations"], "any shape, spacing, given orders 0..2 and maximum order up to 5",
  "Tests generate one grid from one electrode and compare loosely.",
  [E, U], [("generate/derive", E + " GridElectrode.generate, derive, from_result, from_vtk"), ("recipe", U + " construct_derivative")])
p("P16", "Grids: points, axes and index conversion agree",
  "A grid with given centre, step and shape has its points at centre + step (index - (shape-1)/2) on every axis; the slices, mesh, point list, axis arrays and origin all describe these same points in the same order. Converting indices to coordinates and back is the identity for single and batched indices, and a point list grid returns its points.",
  ["inputs"], "any centre, step (also negative or anisotropic) and shape incl. single points",
  "There is no test of grids.",
  [G], [("geometry", G + " Grid, UnstructuredGrid")])
p("P17", "Area, centroid and orientation of polygons",
  "The area of a polygon path is its signed area, positive counter clockwise, and the centroid its centre of mass, independent of the first vertex and of the sense for the centroid; translating adds to the centroid and leaves the area. The orientations of an electrode are the signs of the areas of its paths.",
  ["inputs"], "all simple polygons with non-zero area",
  "Tests check one square.",
  [U, E], [("shoelace", U + " area_centroid"), ("orientations", E + " orientations")])
p("P18", "Grouping electrodes by voltage",
  "Grouping with n sorted thresholds yields n+1 electrodes; the i-th contains exactly the paths of the electrodes whose voltage lies in [t(i-1), t(i)), each electrode in exactly one group, so unit responses of the groups are the sums of those of their members. Group voltages are the means over the members, and given voltages are used instead of the electrodes' own.",
  ["inputs", "configurations"], "any polygon system, voltages (also equal to thresholds) and threshold lists",
  "Tests group one trap at one threshold.",
  [S], [("binning", S + " System.group")])
# ---- optimisation -----------------------------------------------------------
p("P19", "Voltage optimisation contract",
  "Optimised voltages satisfy every range and value constraint, make all objective values proportional to their targets with the returned strength as factor, and no other admissible voltages give a larger strength. Infeasible or unbounded problems are reported as an error, never as a result.",
  ["inputs", "configurations"], "any electrode responses, sets of objectives with zero and non-zero targets in any order, and constraints",
  "Tests optimise one trap whose objective list happens to avoid the special cases.",
  [S, PC], [("linear program", S + " System.optimize"), ("rows", PC)])
p("P20", "Shim vectors are dual to their derivatives",
  "Each shim vector produces one unit of its own derivative and zero of all other requested derivatives and objectives, at all points and in the given local frames. Additional objectives take part with their own rows, and the system's voltages are not changed. Within the voltage ranges allowed (around zero, between -1 and 1 by default) a vector takes the smallest possible share of them, so grounded electrodes stay grounded; a shim they exclude is refused.",
  ["inputs", "configurations"], "any response matrix of full row rank in any unit, voltage ranges, local frames, derivative names and additional objectives",
  "Tests look at the shims of one trap only.",
  [S, PC], [("shims", S + " System.shims")])
p("P21", "Objectives and constraints read the derivative they name",
  "A potential objective reads for each electrode the named derivative of its unit response at its point in its local frame, including names that follow from the Laplace equation; a combination reads the weighted sum of its components. Value, minimum, maximum and exact offset translate into an objective row, lower and upper bounds and an equation on that row, and a range constraint bounds the named electrode or all.",
  ["inputs", "configurations"], "every derivative name up to order 5, frame, weights and combination of bounds",
  "Tests only see objectives through one optimisation.",
  [PC, U], [("rows", PC + " PotentialObjective.get, MultiPotentialObjective.get"), ("bounds", PC + " SingleValueConstraint, PatternRangeConstraint")])
p("P22", "Multi-configuration voltage solving",
  "Solving a sequence of configurations returns voltages that meet all local and global constraints and minimise the sum of all weighted local and global objectives, with that sum as the returned value. Voltage-derivative terms are the finite differences of the given order over neighbouring configurations in the chosen norm. Their upper bounds hold, and so do lower bounds on sums of signed differences.",
  ["inputs", "configurations"], "sequences of configurations with local objectives, bounds and smoothness terms of order 0..2",
  "There is no test of this function.",
  [S, PC], [("linear program", S + " System.solve"), ("differences", PC + " VoltageDerivativeConstraint")])
# ---- dynamics ---------------------------------------------------------------
p("P23", "Minima, saddles and normal modes",
  "A successful minimum search from a generic starting point returns a point where the gradient along the varied axes of the given frame vanishes and the curvature is positive, with all other coordinates as started, and close to one of several separate minima it is that one; a successful saddle search likewise returns a point with vanishing gradient and exactly one negative curvature, and its height. Normal modes are the sorted eigenvalues with orthonormal eigenvectors of the Hessian of the total potential.",
  ["inputs", "configurations"], "any smooth potential, starting point (not itself stationary) of any number type, subset of axes and orthonormal frame",
  "Tests search in two traps in the laboratory frame with all axes.",
  [S, SA], [("minimum", S + " System.minimum"), ("saddle", S + " System.saddle, " + SA + " rfo"), ("modes", S + " System.modes")])
p("P24", "Floquet exponents and modes of the secular motion",
  "The exponents and mode vectors returned for the generalized Mathieu equation solve its truncated harmonic balance: each column together with its exponent satisfies the coupled equations for all frequency components. For a system the coefficients are taken from its dc and rf curvature at the point with the given scale, and sorted results are the exponents with non-negative frequency in ascending order of frequency, scaled to rf units.",
  ["inputs"], "any symmetric coefficient matrices, cutoff and dimension",
  "The corresponding tests fail to run in this environment and compare one number.",
  [U, S], [("harmonic balance", U + " mathieu"), ("coefficients", S + " System.mathieu")])
p("P25", "Mathieu functions solve Mathieu's equation",
  "For parameters with bounded motion the even and odd functions solve y'' + (a - 2 q cos 2t) y = 0 with initial values (1, 0) and (0, 1), all derivative orders are consistent, and the combination found for given initial values has those values at that time. The methods for the characteristic exponent agree within their accuracy and announce unbounded motion.",
  ["inputs"], "all (a, q) in the first stability region, times, derivative orders, initial conditions and methods",
  "There is no test of this class.",
  [MA], [("series", MA + " coeff_Cn, sol_y1, sol_y2"), ("exponents", MA + " nu_exp_*"), ("superposition", MA + " init_value")])
p("P26", "The trap report states what the queries return",
  "The static analysis report contains the parameters, potentials, forces, curvatures and mode frequencies that the corresponding queries return for the same point, in the stated units, also via logging. It does not change the system.",
  ["inputs", "configurations"], "any system, point, ion mass, charge, length and frequency",
  "Tests only print the report.",
  [S], [("report", S + " System.analyze_static")])
p("P27", "Ion trajectories",
  "The trajectory generator hands the integrator the acceleration of the ion in the instantaneous potential, minus its gradient, at the position and time asked for, restricted to the varied axes with the others fixed. It reports time, position and velocity after every time step from the start to the final time, as values that later steps and the caller's arrays do not share.",
  ["histories", "inputs"], "any system, start, axis subset, step size and integrator",
  "There is no running test; the default integrator is not available.",
  [S], [("integration loop", S + " System.trajectory")])
# ---- polygons ---------------------------------------------------------------
p("P28", "Polygons and electrode systems convert into each other",
  "Converting polygons to a system and back, or a system to polygons and back, preserves names, order and the covered region of every electrode, including holes and islands in holes. In the system all outer boundaries are counter clockwise, holes clockwise, without a repeated last point, so the electrode has unit potential on exactly its region.",
  ["inputs"], "all polygon sets with nested holes and islands in any order and orientation",
  "Tests convert one ring trap and compare counts.",
  [P], [("to system", P + " Polygons.to_system"), ("from system", P + " Polygons.from_system")])
p("P29", "Region algebra of electrode polygons",
  "Removing overlaps leaves each electrode the part of its region not covered by earlier ones, so regions become disjoint with unchanged union; unifying (also by name) unions regions within each electrode or name; restricting intersects each region with the given one or the centred square. Filtering keeps exactly the patches or boundaries the test accepts; names and order are preserved.",
  ["inputs", "histories"], "all sets of (multi)polygons with holes and any sequence of these operations",
  "Tests apply each operation to one trap without checking regions.",
  [P], [("operations", P + " remove_overlaps, unify, unify_by_name, restrict, within, filter")])
p("P30", "Gaps, simplification and smoothing",
  "Adding gaps of width g shrinks each electrode to within its region with every point kept at least g/2 from the original outside, up to corners, so that touching electrodes end up g apart; zero width keeps the region. Simplifying moves no point of a boundary by more than the tolerance and keeps names and order. Smoothing a ring of n vertices by s keeps the sum of their squared, weighted distances from the new boundary within s (n + 1), with separate weights for straight and corner vertices wherever the ring begins; smoothing by 0 keeps every vertex.",
  ["inputs"], "all valid polygon sets, gap sizes, tolerances, smoothing parameters and weights",
  "Tests only check that the result is not empty.",
  [P], [("buffer", P + " add_gaps, simplify"), ("splines", P + " smooth")])
p("P31", "Pads and their assignment to electrodes",
  "Every electrode polygon is reported exactly once; the pads in order each claim the first still unclaimed polygon that contains or touches them, and polygons without pad are reported unmatched. Square pads lie on the four sides of the square half a step inside, with equal pitch, counter clockwise from the chosen corner, one of them centred if odd is asked.",
  ["inputs"], "all polygon sets and pad lists, steps, edges, parity and corners",
  "There is no test of pads.",
  [P], [("matching", P + " assign_to_pad"), ("pads", P + " square_pads")])
p("P32", "Building electrodes from polygon, gap and route data",
  "The electrodes built from polygon, gap and route data tile the bounding square (up to gap width) without overlap: given polygons are fragments clipped to the square, and the remainder is cut along gaps not enclosed by routes. Names are attached to the fragments that contain the name's position. The same holds for data read from the layers, texts and properties of a GDS file.",
  ["inputs"], "all layouts of disjoint polygons, gap paths, routes, bridges and names on a lattice",
  "There is no test.",
  [P], [("fragmenting", P + " Polygons.from_data")])
p("P33", "GDS export and import preserve the layout",
  "Writing electrodes to a GDS library and reading it back with the same length scale yields the same names and, up to the database unit, the same outer boundaries, independent of the physical unit. Gap paths trace all boundaries with the given width; clipping restricts to the square.",
  ["inputs", "configurations"], "all polygon sets, scales, units, layers and clipping squares",
  "The only test is not runnable here.",
  [P], [("export", P + " Polygons.to_gds"), ("import", P + " Polygons.from_gds")])
p("P34", "The gap network is the union of all boundaries",
  "The union of gaps covers exactly the boundary points of all electrode polygons, outer and inner, with segments shared by neighbours counted once. For touching electrodes its length is that of the distinct boundary segments.",
  ["inputs"], "all polygon sets",
  "Tests only check that the length is positive.",
  [P], [("union", P + " gaps_union")])
# ---- transformations --------------------------------------------------------
p("P35", "Euler angles: all 24 conventions",
  "For every one of the 24 axis conventions the matrix of three angles is the product of the three elementary rotations in the order and frame the convention names. Angles recovered from the matrix, directly or via quaternion, reproduce the matrix, also at gimbal lock, for the compiled and the Python versions.",
  ["inputs", "configurations"], "all conventions by name or tuple and all angles incl. gimbal lock",
  "Doctests check that some round trips hold, a consistent error in both directions passes.",
  [T], [("euler", T + " euler_matrix, euler_from_matrix, quaternion_from_euler, euler_from_quaternion")])
p("P36", "Quaternions represent rotations",
  "Quaternion product, conjugate, inverse and conversion to and from matrices agree with composition and inversion of rotations, and axis-angle quaternions with axis-angle matrices. Interpolation moves at constant angle from the first to the second rotation along the shorter arc unless told otherwise, and random rotations are proper and uniformly distributed.",
  ["inputs"], "all quaternions, unit or not, and all rotations incl. half turns and identity",
  "Doctests use single examples, the Python versions are shadowed by compiled ones.",
  [T], [("quaternions", T + " quaternion_*, random_*")])
p("P37", "Homogeneous transformations and their inverses",
  "Translation, rotation, reflection, scaling, projection, shear and clip matrices act on points as their geometric definition says, and recovering the parameters from a matrix yields parameters of the same matrix. Decomposing and recomposing a matrix, superimposing and fitting affine maps to points and orthogonalizing cells reproduce the transformation; compiled and Python versions agree.",
  ["inputs"], "all directions, points, angles, factors and non-degenerate matrices",
  "Doctests use single examples.",
  [T], [("matrices", T + " *_matrix, *_from_matrix, compose_matrix, affine_matrix_from_points")])
p("P38", "Queries change nothing",
  "Evaluating potentials, modes, minima, saddles, reports, groups, shims or Floquet exponents leaves the voltages, names, membership and geometry of the system and all arrays passed in as they were, whether the query succeeds or fails. Repeating a query gives the same result.",
  ["histories"], "every interleaving of queries with assignments, on every electrode kind",
  "No test compares the state before and after.",
  [S, E], [("queries", S)])
p("P39", "Stepwise ion position adjustment",
  "A proposed move changes the grouped electrode voltages by exactly the solution of the three force (or position) equations along the chosen mode; accepting it records the new voltages, minimum and curvatures, rejecting restores the voltages of the last accepted step. Every electrode's voltage history starts with its initial voltage and gains one entry per accepted step; the curvatures stay in the order of the modes chosen at the start. Choosing groups anew starts from the present voltages and voids a pending proposal.",
  ["histories"], "every sequence of proposals, accepted, rejected and user-supplied steps",
  "There is no test of this class.",
  [AD], [("state machine", AD + " Adjust")],
  state=[("volts/xms/curves", "history of accepted steps"), ("proposal", "pending move")])
p("P40", "XIC layout parsing",
  "Every polygon record of an XIC file becomes one list of points, in file order, in metres with a hundredth of a micrometre as unit, whatever its number of continuation lines; all other records and blank lines are skipped.",
  ["inputs"], "all files made of polygon, other and blank records",
  "There is no test.",
  [XI], [("parser", XI + " xic_to_list")])
p("P41", "Spherical harmonic analysis and spherical grids",
  "Analysis and synthesis on the quadrature grid are inverse to each other for all band-limited functions, and the coefficient of (n, m) belongs to the standard spherical harmonic of that degree and order. Cartesian and spherical coordinates and gradients convert into each other, and a spherical grid lists the points at its radius around each origin.",
  ["inputs"], "all coefficient arrays and sizes, points and gradients",
  "The one stable test does not compare coefficients to their definition.",
  [SH, G], [("transform", SH + " SphericalHarmonics"), ("grid", G + " SphericalGrid")])
p("P42", "Trackball rotation",
  "For every sequence of placing, pressing, dragging and axis constraints the trackball's orientation is the orientation when pressed turned along the arc from the pressed to the dragged sphere point, by twice its angle; constrained drags rotate about the nearest axis only. The matrix is always a proper rotation, and continuing without input repeats the last rotation increment, or a multiple of it.",
  ["histories"], "every history of mouse events and constraint changes",
  "One doctest plays a single drag.",
  [T], [("trackball", T + " Arcball")])
p("P43", "Plots show the queried data",
  "A contour plot draws the requested kind of potential on the requested plane, at the grid's points in the right axes, and returns its extrema; a voltage plot colours each electrode by its voltage relative to the maximum. Electrode plots contain each path and pixel at its place.",
  ["inputs", "configurations"], "all grids (non-cubic too), planes, offsets, kinds and voltages",
  "Tests only call two of the plot functions.",
  [S, E], [("contour", S + " plot_contour"), ("colours", S + " plot_voltages"), ("patches", E + " plot")])
p("P44", "Validation accepts exactly the valid layouts",
  "Validating a set of electrode polygons passes silently if every polygon's rings are simple, holes lie inside their outer boundary and apart from each other, and the parts of one electrode do not overlap; otherwise, wherever the offending electrode is in the list, it raises a ValueError. Nothing is changed.",
  ["inputs"], "all layouts of polygons with any rings, holes and parts",
  "Tests validate two valid traps.",
  [P], [("validate", P + " Polygons.validate")])
p("P45", "Adaptive refinement refines exactly at voltage jumps",
  "Adaptive mesh refinement first asks the mesh generator for a mesh of the given boundaries - all their points, all their sides closed path by path, each path's sides with a marker of its own - with the given corner angle and triangle area. For every mesh it gets it optimises the system of the fixed electrodes and one polygon electrode per triangle (with its images under the symmetry), and asks for the next mesh with a maximum area for each triangle: its present area divided by `down` if its voltage differs by more than the threshold from that of a triangle it shares a side with, and multiplied by `up` otherwise; a border is not a jump. The first mesh with more than nmax triangles ends the refinement; system, voltages and strength returned are those of the mesh before it, or nothing if there is none. Boundaries, fixed electrodes and constraints are not changed.",
  ["inputs", "histories"], "all boundaries, thresholds, factors, symmetries and sequences of meshes and potentials",
  "No test imports the module, whose mesh generator is not installed; the meshes follow from one another in a loop.",
  ["electrode/adaptive.py"], [("refinement", "electrode/adaptive.py adapt_mesh"), ("boundaries", "electrode/adaptive.py paths_to_mesh"), ("symmetry", "electrode/adaptive.py transformed_copy")])
EXTRA = []   # properties added later append here through p()


def main():
    from props import PROPS
    import jsonschema
    schema = json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for l in L:
            assert len(l["title"]) <= 80, l["title"]
            if schema:
                jsonschema.validate(l, schema)
            f.write(json.dumps(l) + "\n")
    checks, na = [], []
    for l in L:
        if l["id"] in PROPS:
            q = PROPS[l["id"]]
            checks.append({"property": l["id"],
                "quick_cmd": "python3 harness/check.py %s --tier quick" % l["id"],
                "thorough_cmd": "python3 harness/check.py %s --tier thorough" % l["id"],
                "technique": "TLA+ specification checked with TLC; conformance of the implementation by "
                    + q["technique"],
                "level": q["level"], "level_note": q["note"],
                "evidence_file": "evidence/%s.json" % l["id"]})
        else:
            na.append({"property": l["id"], "reason": NA.get(l["id"], "no check built for it yet")})
    m = {"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks, "not_applicable": na,
         "notes": "TLA+ with TLC; see DESIGN.md. No hooks: the code is observed through its public API."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    ms = "/root/.vp/MANIFEST.schema.json"
    if os.path.exists(ms):
        jsonschema.validate(m, json.load(open(ms)))
    print(len(L), "properties,", len(checks), "checks,", len(na), "not applicable")


NA = {}
if __name__ == "__main__":
    main()
