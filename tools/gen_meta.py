#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "tests/cpu"


def p(id, title, statement, over, text, why, files, mech, note, observe=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note,
                observe=list(observe))


PROPS = [
    p("C01", "Every stored node has its own storage slot inside the array",
      "For every grid (1D, 2D or 3D, any cell counts, any padding), the node-to-storage map sends every node of the padded grid, ghost nodes "
      "included, to a slot between 0 and the storage size, and no two nodes to the same slot. The storage size is the number of padded "
      "nodes, and the reported dimension, cell counts, axis mask and number of interior cells agree with it. Indices along axes the grid does not have "
      "are ignored, whatever their value.",
      ["inputs", "configurations"], "all cell counts, paddings and pairs of stored nodes; for axes that do not exist, every int",
      "The grid tests look at a handful of nodes of one 10-cell grid per dimension with the default padding; injectivity and range need all pairs "
      "of nodes for all sizes and paddings.",
      ["include/gals/utilities/grid.h", "src/cpu/grid.cc", "src/cpu/array.cc"],
      [("Grid::index", "src/cpu/grid.cc"), ("Grid::size, Grid::setPadding, mask", "src/cpu/grid.cc")],
      "For the stated sizes, for all nodes; sizes beyond are not explored except the listed large ones."),
    p("C02", "Nodes sit at the cell centres of the box, ghost nodes on the same lattice",
      "After a grid is generated on a box, node i along each axis lies at box minimum plus (i + 1/2) times the cell size, for interior and ghost "
      "nodes alike and for every padding, and coordinates along axes the grid does not have are zero. The cell size is the box length divided by the "
      "cell count along every axis and the reported inverse is its inverse. Generating a grid again with another box or padding gives what a "
      "fresh grid would give.",
      ["inputs", "configurations", "histories"], "all boxes (corner and spacing), cell counts, paddings, nodes; one regeneration",
      "Tests generate a unit-like box with default padding and compare a few nodes; an error that appears only for another padding, an off-origin "
      "box, an anisotropic spacing or on regeneration is not reached (the original code was wrong for every padding but one).",
      ["include/gals/utilities/grid.h", "src/cpu/grid.cc"],
      [("Grid::generate", "src/cpu/grid.cc"), ("Grid::operator(), Grid::x, dX, oneOverDX", "src/cpu/grid.cc")],
      "Exact over the reals for the stated sizes."),
    p("C03", "Point location returns the cell that encloses the point",
      "For every point, the base node reported for it is, along every axis of the grid, the last node not to the right of the point, so the point lies "
      "between that node and the next one. For every point between the first and the last stored node the cell lies inside the padded grid. Axes the "
      "grid does not have are marked with the largest int.",
      ["inputs", "configurations"], "all boxes, paddings and points, inside the grid, in the ghost layers and far outside",
      "Tests locate a few points of one grid; truncation towards zero, off-by-half and ghost-layer errors only show for points left of the first "
      "node, for shifted boxes or anisotropic spacings.",
      ["src/cpu/grid.cc"], [("Grid::baseNodeId", "src/cpu/grid.cc")],
      "Exact over the reals; rounding exactly at a node is outside."),
    p("C04", "Arrays store and copy every element independently",
      "A new array holds one zero element per padded node. Whatever way an element is written or read (node indices, node id, storage index, raw data), "
      "all ways address the same element, and a write changes that element only. Assigning one array to another copies every element, ghosts included "
      "(adopting the source's size if it differs), leaves the source alone, and the two do not share storage afterwards.",
      ["inputs", "configurations"], "all contents, element types, nodes, accessors and grid shapes within the bounds",
      "Tests write a few elements and read them back; aliasing between elements, a missed ghost layer or a shallow copy needs all nodes and "
      "arbitrary contents.",
      ["include/gals/utilities/array.h", "src/cpu/array.cc"],
      [("Array::operator(), Array::operator[]", "src/cpu/array.cc"), ("Array::operator=", "src/cpu/array.cc")],
      "All contents and writes for the stated grids and element types."),
    p("C05", "Vector and matrix types compute component-wise algebra",
      "3-vectors, 3x3 matrices and fixed-size vectors start at zero, keep each component separate, copy by value, and compute component-wise "
      "differences, products, quotients and scaling without touching their operands; the magnitude is the Euclidean norm and the minimum is the least component also when components tie. "
      "A matrix applied to a vector sums the rows of the matrix weighted by the components of the vector, and element (row, column) is element 3*row + column. "
      "Equality means every component differs by at most 1e-10 (exactly equal for integers), is symmetric, and a NaN component equals nothing.",
      ["inputs"], "all component values (all IEEE doubles for the minimum and NaN rules)",
      "Tests check fixed sample vectors; tie cases, tolerance edges per component, NaN and operand aliasing are not sampled (the original minimum "
      "was wrong when components tie).",
      ["include/gals/utilities/vec3.h", "include/gals/utilities/mat3.h", "include/gals/utilities/vec_n.h", "src/cpu/vec3.cc", "src/cpu/mat3.cc",
       "src/cpu/vec_n.cc", "include/gals/utilities/utilities.h"],
      [("Vec3 operators, min, mag", "src/cpu/vec3.cc"), ("Mat3 operators, dot", "src/cpu/mat3.cc"), ("VecN", "src/cpu/vec_n.cc")],
      "Exact reals, bit-precise IEEE binary64 for min and NaN rules."),
    p("C06", "Scalar gradients have the order of accuracy their scheme promises",
      "At every interior node, for any field, each component of the second-order gradient is the derivative of the parabola through the node and its two neighbours, and of the third-order "
      "gradient the derivative of the cubic through the two nodes on the left, the node and the one on the right; so polynomials of degree two "
      "respectively three are differentiated exactly on every box. The differentiated field, the gradient at ghost nodes and gradient components of axes the grid "
      "does not have are left alone, and all ways to invoke a scheme give the same result.",
      ["inputs", "configurations"], "all fields, boxes, spacings, sizes within bounds, nodes, both schemes, 1D-3D",
      "Tests differentiate one or two analytic functions with a loose tolerance on one grid, which a wrong coefficient at a boundary node, in one "
      "axis of an anisotropic grid, or a stray write to ghosts survives.",
      ["src/cpu/gradient/second-order-central.cc", "src/cpu/gradient/third-order.cc", "src/cpu/gradient.cc", "include/gals/cpu/gradient.h"],
      [("SecondOrderCentral::compute", "src/cpu/gradient/second-order-central.cc"), ("ThirdOrder::compute", "src/cpu/gradient/third-order.cc"),
       ("Gradient::compute", "src/cpu/gradient.cc")],
      "Exact over the reals for the stated grids."),
    p("C07", "The gradient of a vector field is the matrix of its partial derivatives",
      "Row a, column b of the gradient of a vector field at an interior node is the scheme's derivative of component a along axis b, that is, the scalar gradient "
      "of that component; the gradient of a linear field u = A x + t is A. The field itself, ghost nodes of the result, and rows and columns of axes the grid does not have "
      "are left alone, and all ways to invoke a scheme agree.",
      ["inputs", "configurations"], "all vector fields, boxes, sizes within bounds, both schemes, 1D-3D",
      "Tests use a field whose gradient does not distinguish the component from the direction; the original code differentiated along the component's own axis.",
      ["src/cpu/gradient/second-order-central.cc", "src/cpu/gradient/third-order.cc", "src/cpu/gradient.cc"],
      [("SecondOrderCentral::compute (vector)", "src/cpu/gradient/second-order-central.cc"), ("ThirdOrder::compute (vector)", "src/cpu/gradient/third-order.cc")],
      "Exact over the reals for the stated grids."),
    p("C08", "Hermite interpolation reproduces every cubic, value and gradient",
      "If the stored values, gradients and mixed derivatives at the corners of a cell are those of a polynomial of degree at most three per axis, "
      "interpolation at any point of that cell returns the polynomial's value and gradient, in 1D, 2D and 3D and in every cell of the padded grid, whatever is stored elsewhere. "
      "At a node it returns the node's own value and gradient for any data. Gradient components of axes the grid does not have are zero and coordinates along them do not matter.",
      ["inputs", "configurations"], "all cells, points of a cell, boxes and Hermite data (4, 16, 64 free coefficients)",
      "Tests interpolate one smooth function at a few points with a tolerance that a wrong mixed-derivative term or a swapped axis on anisotropic cells can satisfy.",
      ["src/cpu/interpolation/hermite-1d.cc", "src/cpu/interpolation/hermite-2d.cc", "src/cpu/interpolation/hermite-3d.cc",
       "include/gals/cpu/interpolation/hermite.h"],
      [("Hermite::interpolate", "src/cpu/interpolation/hermite-{1d,2d,3d}.cc"), ("get_control_points, Bernstein basis", "include/gals/cpu/interpolation/hermite.h")],
      "Exact over the reals for the stated grids."),
    p("C09", "Field interpolation is point interpolation at every node, and nothing else",
      "Interpolating a level set at an array of points gives, at every interior node of the points' grid (the level set's grid or one with fewer cells), exactly the value and gradient that point interpolation gives at that node's point. "
      "It writes the interpolated fields at these nodes only: their other nodes and ghost nodes, the current fields, the previous fields, the mixed derivatives and the points are left alone, and earlier interpolations do not matter. "
      "All ways to invoke it agree.",
      ["inputs", "configurations"], "all data, boxes and interpolation points within the padded grid",
      "Tests compare interpolated values at a few nodes; node-order mistakes that depend on where other nodes ask, and writes to other fields, are not observed.",
      ["src/cpu/interpolation/hermite-1d.cc", "src/cpu/interpolation/hermite-2d.cc", "src/cpu/interpolation/hermite-3d.cc", "src/cpu/interpolate.cc"],
      [("Hermite::compute", "src/cpu/interpolation/hermite-*.cc"), ("Interpolate::compute", "src/cpu/interpolate.cc")],
      "One free node at a time, the others at fixed offsets."),
    p("C10", "Bezier control points carry the slopes; gradient limiting follows its rule",
      "Without limiting, the four control points of an interval are its end values and the end values moved by a third of the interval along the end slopes. "
      "With limiting, the end values are kept and the inner points follow the documented switching rule (left slope governs, right slope governs, straight line between the ends, or unchanged), "
      "and a linear field is left unchanged in 1D, 2D and 3D. Along every edge of a cell, the 2D and 3D interpolant, approached from within the cell, is the one-dimensional curve of these control points.",
      ["inputs"], "all end values, slopes and spacings; all points; limiting on and off",
      "Tests evaluate single tuples; which branch of the limiter is taken depends on sign combinations of three products of the data.",
      ["include/gals/cpu/interpolation/hermite.h", "src/cpu/interpolation/hermite-1d.cc", "src/cpu/interpolation/hermite-2d.cc", "src/cpu/interpolation/hermite-3d.cc"],
      [("get_control_points", "include/gals/cpu/interpolation/hermite.h")],
      "Ties of the switching expressions (within 1e-6) are outside."),
    p("C11", "Linear interpolation in 1D is exact and bounded by its neighbours",
      "Linear interpolation at a point between two stored nodes of a 1D grid returns the value on the straight line between the two nodal values, so it never leaves their range. "
      "The field version gives the point version at each interior node of the result's grid (which may differ from the data's grid); ghost nodes of the result and the data are left alone, and all ways to invoke it agree.",
      ["inputs", "configurations"], "all data, boxes, points between stored nodes, result grids within bounds",
      "Tests interpolate a linear function, for which wrong weights or a wrong base node can cancel.",
      ["src/cpu/interpolation/linear-1d.cc", "src/cpu/interpolate.cc", "include/gals/cpu/interpolation/linear.h"],
      [("Linear::linearInterpolation, Linear::compute", "src/cpu/interpolation/linear-1d.cc")],
      "Exact over the reals."),
    p("C12", "The explicit Euler step advances phi from its previous value and nothing else",
      "After an explicit Euler step, phi at every interior node is its previous-step value minus the time step times the first velocity component at that node, for every field, time step and dimension. "
      "Ghost nodes of phi, all other level set fields, the velocity and its gradient are left alone, and all ways to invoke the step agree.",
      ["inputs", "configurations"], "all fields and time steps, 1D-3D",
      "The test runs one 1D configuration; other dimensions, ghost writes and dependence on stale current values are not observed.",
      ["src/cpu/temporal-schemes/euler.cc", "src/cpu/temporal.cc", "include/gals/cpu/temporal.h"],
      [("TEMPORAL_SCHEMES::Euler::compute", "src/cpu/temporal-schemes/euler.cc"), ("Temporal::compute", "src/cpu/temporal.cc")],
      "Exact over the reals for the stated grids."),
    p("C13", "A semi-Lagrangian step looks back along the velocity and interpolates there",
      "After a semi-Lagrangian Euler step, phi at every interior node is the Hermite interpolant of the previous fields at the node's departure point (node minus time step times velocity), and psi is the interpolated "
      "gradient g carried by the deformation of the backward map, g minus the time step times (transposed velocity gradient applied to g). This holds for all data, velocities whose departure points stay between stored nodes, and time steps. "
      "Ghost nodes of phi and psi, the previous fields, mixed derivatives, velocity and velocity gradient are left alone, and all ways to invoke the step agree.",
      ["inputs", "configurations"], "all previous fields, velocities, velocity gradients, boxes and time steps, 1D-3D",
      "The tests advect one field with zero velocity gradient by one step; the transposition, sign and order of the deformation term and any dependence on other nodes' departure points are not exercised.",
      ["src/cpu/temporal-schemes/semi-lagrangian/euler.cc", "src/cpu/temporal.cc", "src/cpu/interpolate.cc"],
      [("SEMI_LAGRANGIAN::Euler::compute", "src/cpu/temporal-schemes/semi-lagrangian/euler.cc"), ("Mat3::dot", "src/cpu/mat3.cc")],
      "Exact over the reals; departure points outside the stored nodes are outside."),
    p("C14", "Advection transports cubics exactly over every number of steps",
      "In a uniform flow a level set that is a cubic per axis is translated exactly, values and gradients, after every step of a sequence of semi-Lagrangian steps. In an affine flow one step returns the value "
      "of the transported field and, as psi, exactly the gradient of the transported field. No gradient appears along axes the grid does not have.",
      ["inputs", "histories"], "all cubics, flows (displacement up to the padding), time steps, nodes; sequences of 1-4 steps",
      "A test samples one trajectory; consistency between phi and psi for every flow, and of repeated steps, is a statement over all inputs and histories.",
      ["src/cpu/temporal-schemes/semi-lagrangian/euler.cc", "src/cpu/interpolation/hermite-1d.cc", "src/cpu/interpolation/hermite-2d.cc", "src/cpu/interpolation/hermite-3d.cc",
       "src/cpu/levelset.cc"],
      [("SEMI_LAGRANGIAN::Euler::compute", "src/cpu/temporal-schemes/semi-lagrangian/euler.cc"), ("Hermite::interpolate", "src/cpu/interpolation/")],
      "Exact over the reals; ghost data supplied by the harness."),
    p("C15", "The CIRCLE level set is the signed distance to the circle",
      "Computing the analytical level set named CIRCLE sets phi at every interior node to the distance of that node's position from the centre minus the radius, in 1D, 2D and 3D, for all positions, centres and radii. "
      "Any other name changes nothing, and ghost nodes, all other fields, the positions and the inputs are always left alone.",
      ["inputs", "configurations"], "all positions, centres, radii, previous contents; several other names",
      "The test (not even built in this environment) samples one circle; per-component mistakes vanish for centred circles.",
      ["src/cpu/analytical-fields/levelset.cc", "include/gals/analytical-fields/levelset.h"],
      [("ANALYTICAL_FIELDS::Levelset::compute", "src/cpu/analytical-fields/levelset.cc")],
      "Square root as the exact non-negative root."),
    p("C16", "The CIRCULAR velocity is a rigid rotation about its centre",
      "Computing the analytical velocity named CIRCULAR in 2D and 3D sets, at every interior node, the velocity of the rigid rotation with angular speed pi/3.15 about the centre in the x-y plane (no z component, at any time), and with the gradient scheme "
      "ANALYTICAL the matching velocity gradient at every interior node. Any other name changes nothing and any other gradient scheme leaves the gradient alone. Ghost nodes, the z row and column of the gradient, the positions and the inputs are left alone.",
      ["inputs", "configurations"], "all positions, centres, times, previous contents; several other names and schemes",
      "The test (not built here) uses a centre for which the mistakes of the original code cancelled (wrong centre component, gradient at one node only).",
      ["src/cpu/analytical-fields/velocity.cc", "include/gals/analytical-fields/velocity.h"],
      [("ANALYTICAL_FIELDS::Velocity::compute", "src/cpu/analytical-fields/velocity.cc")],
      "Exact over the reals; 1D is reported as not implemented by the library."),
    p("C17", "The input file reader fills exactly what the file says",
      "After parsing an input file, every field the file gives (box, cell counts, times, names, vectors, centres, radius, schemes, output directory) holds that value in its own member, for all values and texts. A section that is absent leaves "
      "its fields as they were, keys and sections the library does not know are ignored, and parsing a second file overrides just the sections it has, without accumulating. Every section reader works alike whichever way it is invoked, "
      "and different input records do not share data.",
      ["inputs", "configurations", "histories"], "all numeric values, all subsets of sections, several texts, all pairs of first and second files within the bounds",
      "The tests parse one file with fixed, often coinciding values; two swapped members, a missing section or a second file are not exercised.",
      ["src/cpu/input-parser.cc", "src/cpu/input-parser/general.cc", "src/cpu/input-parser/grid.cc", "src/cpu/input-parser/time.cc", "src/cpu/input-parser/velocity.cc",
       "src/cpu/input-parser/levelset.cc", "src/cpu/input-fields/input-fields.cc"],
      [("InputParser::parse", "src/cpu/input-parser.cc"), ("section readers", "src/cpu/input-parser/"), ("InputFields", "src/cpu/input-fields/")],
      "yaml-cpp itself is represented by a tree of symbolic values (the replay uses the real library and a real file)."),
    p("C19", "Written files list every interior node; file requests hit the named path",
      "Writing an array to a file gives one line per interior node, in the order of i, then j, then k, with the node's x, y and z position and the components of its value separated by tabs; ghost nodes are not written, an existing file is replaced, "
      "the array is left alone, and printing vectors and matrices lists their components in order. The file helper reports existence and success as the file system does, acts on exactly the given path, does not re-create an existing directory, "
      "creates missing parents, and keeps the root directory it was given.",
      ["inputs", "configurations"], "all contents, boxes, grids within the bounds, 1D-3D; all answers of the file system",
      "The file tests (not built here) check that a file appears; its content, and requests whose file system answers differ, are not looked at.",
      ["src/cpu/file-utils.cc", "include/gals/utilities/file-utils.h", "include/gals/utilities/array.h", "include/gals/utilities/vec3.h", "include/gals/utilities/mat3.h",
       "include/gals/utilities/vec_n.h"],
      [("FileUtils::write, fileExists, createDirectory, removeFile, removeDirectory", "src/cpu/file-utils.cc"), ("operator<<", "include/gals/utilities/")],
      "The file system submodule is absent here and replaced by a recording stand-in; digits of printed numbers are outside."),
    p("C20", "The advection program makes the steps its input file asks for",
      "The advection program started with an input file uses the file's time step, or half the smallest spacing of the grid's two axes when constant_dt is NO, and steps from the start time until the end time is reached (up to rounding of the accumulated time), at least once and never after reaching it. "
      "Every step uses the file's velocity and velocity gradient and starts, as its previous fields, from the level set the last step left (at first the file's analytical level set) and its third-order gradient. At the end it writes position and velocity of every interior node to the file "
      "`velocity` in the output directory, which it creates if missing. Without an input file it computes and writes nothing. No run reads or writes outside the program's memory.",
      ["inputs", "configurations", "histories"], "all boxes, centres, radii, start and end times, time steps, results of each step; runs of up to six steps",
      "There is no test of the program at all (and it is not built in this environment); which fields a later step starts from, when the loop ends and which time step is chosen depend on the whole history and input.",
      ["applications/advection/main.cc", "src/cpu/input-parser.cc", "src/cpu/file-utils.cc", "src/cpu/analytical-fields/velocity.cc", "src/cpu/analytical-fields/levelset.cc"],
      [("main: time loop, automatic time step", "applications/advection/main.cc")],
      "Two-dimensional, as the program is; unused axis has one cell. One known finding (departure points beyond the padding) is listed in known-findings.txt."),
    p("C21", "Level set and velocity fields are separate, zero-initialised, one per node",
      "A new level set or velocity holds zero at every node, ghosts included, in each of its fields, with 0, 1 or 4 mixed derivatives per node in 1D, 2D or 3D. Each accessor gives its own field, const and non-const accessors give the same field, and "
      "writing any node of one field never changes another field.",
      ["inputs", "configurations"], "all contents, nodes and fields, 1D-3D",
      "Tests read back a few values of a few fields; two accessors sharing storage or a missed field show only when all fields hold different data.",
      ["include/gals/cpu/levelset.h", "src/cpu/levelset.cc", "include/gals/cpu/levelset-velocity.h", "src/cpu/levelset-velocity.cc"],
      [("Levelset", "src/cpu/levelset.cc"), ("LevelsetVelocity", "src/cpu/levelset-velocity.cc")],
      "All contents for the stated grids."),
    p("C23", "Scalar helpers: Bernstein basis, powers, tolerant equality",
      "The cubic Bernstein polynomials and their derivatives used by interpolation are the true ones for every argument: they sum to one, their derivatives to zero, and they reproduce linear functions. "
      "Square, cube and the constants pi, 1/3 and 2/3 are what they say. Tolerant equality holds exactly when the difference is at most 1e-10 in magnitude, is symmetric, and never holds for NaN.",
      ["inputs"], "all arguments in the stated ranges; all IEEE doubles for NaN rules",
      "Tests check single arguments.",
      ["include/gals/utilities/utilities.h", "include/gals/cpu/interpolation/hermite.h"],
      [("B0..B3, B0_Prime..B3_Prime", "include/gals/cpu/interpolation/hermite.h"), ("is_equal, sqr, cube", "include/gals/utilities/utilities.h")],
      "Exact reals; bit-precise for NaN rules."),
    p("C24", "No operation touches memory it does not own, and all memory is returned",
      "On every grid whose padding covers the scheme's stencil, gradients, interpolation between stored nodes, both time steps, analytical fields, copies and assignments read and write only inside the objects they own, never read indeterminate data into a result, and "
      "never convert a number that does not fit. When the objects are destroyed, all memory they allocated has been released exactly once, and repeating an operation does not accumulate memory (a buffer kept for reuse is fine).",
      ["inputs", "configurations"], "all grid shapes and paddings within bounds, all points between stored nodes",
      "Tests run without sanitizers on one size; an access one past the padded storage or a leak goes unnoticed.",
      ["src/cpu/array.cc", "src/cpu/grid.cc", "src/cpu/gradient/third-order.cc", "src/cpu/interpolation/hermite-3d.cc", "src/cpu/temporal-schemes/semi-lagrangian/euler.cc",
       "src/cpu/levelset.cc", "src/cpu/input-fields/input-fields.cc"],
      [("Grid::index, Array::operator()", "src/cpu/"), ("constructors and destructors of containers", "src/cpu/")],
      "Memory model of the symbolic executor (object-granular bounds, uninitialised bytes, leaks)."),
    p("C25", "Reference programs: the Hermite patch reproduces any bicubic and its slopes",
      "In every reference program (serial, OpenMP/MPI, CUDA) the Hermite patch built from values, first and mixed derivatives at the corners of a cell equals the bicubic with that data, and its x and y derivative functions "
      "equal the derivatives of that bicubic, at every point of any cell of any size.",
      ["inputs"], "all corner data, cells, points",
      "No test runs the reference programs; a wrong basis factor shows only off the corners and with non-square cells.",
      ["src/reference/Hermite.h", "src/reference/SerialCode/Hermite.h", "src/reference/CUDA/HermiteCUDA.cu", "src/reference/OldSerialCode/Hermite.h"],
      [("hp, hermx, hermy", "src/reference/")],
      "Exact reals, all coefficients."),
    p("C26", "Reference programs: departure points follow the chosen back-trace at every node",
      "For every velocity field, advection_point (serial, OpenMP, split over processes, CUDA) gives every node the point its trajectory comes from: with Euler x - dt u(x, t+dt); with RK3 the third-order strong-stability-preserving back-trace with velocities at t+dt, t and t+dt/2. "
      "The version for a range of columns fills exactly that range and leaves other columns alone.",
      ["inputs", "configurations"], "all velocity fields, nodes, times, time steps, column ranges",
      "No test runs the reference programs; the vortex flow they ship hides wrong stage times and skipped boundary rows.",
      ["src/reference/AdvectionPointCalcs.h", "src/reference/SerialCode/AdvectionPointCalcs.h", "src/reference/TimeSteppingMethods.h", "src/reference/CUDA/AdvectionPointCalcsCUDA.cu", "src/reference/CUDA/TimeSteppingMethodsCUDA.cu"],
      [("advection_point, advection_point_MPI, advection_point_cuda, RK3", "src/reference/")],
      "The velocity is an uninterpreted function, so any field is covered."),
    p("C27", "Reference programs: each departure point gets its class and an existing cell",
      "find_advection_point_location (all versions) classifies every departure point as inside the grid (1), outside in y only (2), outside in x only (3) or in both (4), points on the outer lines counting as outside, and gives it a cell that exists: "
      "per axis the cell containing the point, or the first or last cell when it lies outside on that side (any existing cell for class 4). Columns outside the given range are left alone.",
      ["inputs", "configurations"], "all points, uniform grids and column ranges within bounds",
      "No test runs the reference programs; a wrong side or a missing cell matters only for points leaving through a particular side.",
      ["src/reference/AdvectionPointCalcs.h", "src/reference/SerialCode/AdvectionPointCalcs.h", "src/reference/CUDA/AdvectionPointCalcsCUDA.cu"],
      [("find_advection_point_location, _MPI, _cuda", "src/reference/")],
      "Exact reals."),
    p("C28", "Reference programs: mixed derivatives from both gradients, boundary included",
      "update_mixed_derivatives (all versions) sets the mixed derivative at each interior node to the mean of the central differences of psi_y along x and psi_x along y; on a boundary line to the central difference along that line; at a corner to 3/4 (row + column difference at the corner) "
      "minus 1/4 (of the neighbouring row and column). Gradients are only read; the ranged version fills exactly its columns.",
      ["inputs", "configurations"], "all gradient data, spacings, grid shapes and column ranges within bounds",
      "No test runs the reference programs; corner formulas and non-square spacings are never exercised.",
      ["src/reference/AdvectionPointCalcs.h", "src/reference/SerialCode/AdvectionPointCalcs.h", "src/reference/CUDA/AdvectionPointCalcsCUDA.cu"],
      [("update_mixed_derivatives, update_mixed_derivatives_mpi", "src/reference/")],
      "Exact reals."),
    p("C29", "Reference programs: the level set update of every class of departure point",
      "update_levelset_data (all versions): inside the grid the new value is the Hermite patch at the departure point, and the new gradient is, with SuperConsistent, the transposed Jacobian of the Euler or RK3 back-trace applied to the patch's gradient or, with Heuns, "
      "Heun's step of dpsi/dt = -(grad u)^T psi along the trajectory. Outside in one direction the patch is used along the other axis with a first-order step for the missing one (the tangential gradient by Heun's rule); outside in both, one Euler step. "
      "Old fields and mixed derivatives are not changed, other columns and other nodes' results are unaffected.",
      ["inputs", "configurations"], "all data, velocities, velocity gradients, classes, cells and column ranges within bounds",
      "No test runs the reference programs; wrong terms vanish for the shipped flow at early times or on symmetric data.",
      ["src/reference/AdvectionPointCalcs.h", "src/reference/SerialCode/AdvectionPointCalcs.h", "src/reference/TimeSteppingMethods.h", "src/reference/CUDA/AdvectionPointCalcsCUDA.cu", "src/reference/CUDA/TimeSteppingMethodsCUDA.cu"],
      [("update_levelset_data, _mpi, _cuda, Heun_internal, SuperConsistentScheme", "src/reference/")],
      "Velocity and its gradients are uninterpreted functions."),
    p("C30", "Reference programs: one whole step moves any bicubic exactly with a uniform flow",
      "Departure points, cells, update, mixed derivatives and copy together: for a uniform velocity of up to one cell per step every node whose departure point is inside the grid holds the value and gradient of the shifted bicubic, boundary nodes follow the first-order boundary treatment, "
      "and splitting the columns between two processes gives the same result. Serial, OpenMP/MPI and CUDA versions agree.",
      ["inputs", "configurations"], "all bicubics, uniform velocities, grids, time steps and splits within bounds",
      "No test runs the reference programs; stages that agree on what a class or a cell index means are tested only by composing them.",
      ["src/reference/AdvectionPointCalcs.h", "src/reference/SerialCode/AdvectionPointCalcs.h", "src/reference/CUDA/AdvectionPointCalcsCUDA.cu"],
      [("one time step", "src/reference/")],
      "Exact reals."),
    p("C31", "Reference programs: parallel loops have no data race, in any schedule",
      "In the OpenMP loops and CUDA kernels of the reference programs no two threads access the same location between barriers with at least one write, for any number of threads and assignment of rows within bounds, so that results do not depend on the schedule and equal the sequential ones.",
      ["schedules", "inputs"], "all interleavings of the modelled threads between barriers, through pairwise conflict freedom",
      "A race corrupts results only in some schedules; tests, if there were any, sample one.",
      ["src/reference/AdvectionPointCalcs.h", "src/reference/CUDA/AdvectionPointCalcsCUDA.cu"],
      [("omp parallel for regions", "src/reference/AdvectionPointCalcs.h"), ("__global__ kernels", "src/reference/CUDA/AdvectionPointCalcsCUDA.cu")],
      "Absence of conflicting accesses implies schedule independence; counterexamples are replayed under ThreadSanitizer."),
    p("C32", "Reference programs: vortex velocity, initial level set, nodes and output files",
      "The shipped velocity is the time-periodic swirling vortex u = cos(pi t/T) sin^2(pi x) sin(2 pi y), v = -cos(pi t/T) sin^2(pi y) sin(2 pi x); the four gradient functions are its derivatives and it is divergence-free. The initial level set is exp(-((x-1/2)^2+(y-3/4)^2)) - exp(-0.15^2) with its exact "
      "first and mixed derivatives at every node. Nodes are equally spaced from the lower limit. Each output appends, for each of the six files, one row of comma-separated numbers (ten decimals) per row of nodes and an empty line per time.",
      ["inputs", "histories"], "all positions, times, periods, grids and values within bounds",
      "No test runs the reference programs; a wrong gradient term or a transposed output survives any run whose picture looks plausible.",
      ["src/reference/VortexVelocity.h", "src/reference/InitializeLevelSet.h", "src/reference/Allocation.h", "src/reference/SerialCode/Allocation.h", "src/reference/CUDA/Allocation.h", "src/reference/CUDA/VortexVelocityCUDA.cu", "src/reference/CUDA/InitializeLevelSet.h", "src/reference/OldSerialCode/Initializer_vortex.h"],
      [("Velx, Vely, gradUx..gradVy", "src/reference/VortexVelocity.h"), ("initialize, derivx, derivy, derivxy", "src/reference/InitializeLevelSet.h"), ("gridnodes, allocate_levelset_matrices, fileprint", "src/reference/Allocation.h")],
      "Trigonometric functions are uninterpreted up to double-angle and Pythagorean identities."),
    p("C33", "Reference programs: time loop, output schedule and process exchange",
      "Each reference program (serial, OpenMP, MPI with two processes, MPI with OpenMP, CUDA), run with any of its settings, takes floor(Tfinal/dt) steps, each made of back-trace, location, update and mixed derivatives at that step's times on the level set of the step before, so that all programs give the "
      "same level set. Files of an earlier run are replaced; the level set (phi, psix, psiy, psixy) and the velocity are written at time 0 and after every printstep-th step (only after the last step when option is not 1), and details.txt holds the grid, number of steps, time step and printstep used. "
      "With two processes the second half of the columns is computed by the second process and arrives complete and in full precision at the first, which alone writes files; every message is received, with the type and within the size it was sent with. CUDA copies stay within the side and size of the buffers they name.",
      ["inputs", "histories", "configurations"], "all grid positions, initial level sets, schemes, output options and step counts within bounds",
      "No test runs a reference program; an exchange with the wrong type or count, a stale buffer, or an output schedule that is off by one needs a whole run to be seen.",
      ["src/reference/GALS_Advection_OpenMP.cpp", "src/reference/GALS_Advection_MPI.cpp", "src/reference/GALS_Advection_MPI_OpenMP.cpp", "src/reference/defineMPI.h", "src/reference/SerialCode/GALS_Advection.cpp", "src/reference/CUDA/GALS_Advection.cu", "src/reference/Allocation.h", "src/reference/SerialCode/Allocation.h", "src/reference/CUDA/Allocation.h"],
      [("main", "src/reference/GALS_Advection_OpenMP.cpp"), ("main", "src/reference/GALS_Advection_MPI.cpp"), ("main", "src/reference/GALS_Advection_MPI_OpenMP.cpp"), ("main", "src/reference/SerialCode/GALS_Advection.cpp"), ("main", "src/reference/CUDA/GALS_Advection.cu"), ("context", "src/reference/defineMPI.h")],
      "The whole main is executed on symbolic data; its output files are compared with an independent simulation of the same run."),
]
NOT_APPLICABLE = []


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in PROPS + NOT_APPLICABLE:
            d = dict(id=q["id"], title=q["title"], statement=q["statement"], quantifier=dict(over=q["over"], text=q["text"]),
                     why_tests_cant=q["why"],
                     anchors=dict(files=q["files"], mechanism=[dict(name=n, where=w) for n, w in q["mech"]], observe_at=q["observe"],
                                  hook_needed=None))
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    checks = []
    for q in PROPS:
        cmd = "/opt/veriftools/pyvenv/bin/python3 engine/check.py %s %%s" % q["id"]
        checks.append(dict(property=q["id"], quick_cmd=cmd % "quick", thorough_cmd=cmd % "thorough",
                           evidence_file="evidence/%s.json" % q["id"],
                           technique="symbolic execution of the LLVM IR of /repo's sources, SMT (z3; cvc5 cross-check in thorough); counterexamples replayed natively",
                           level="model_checking",
                           level_note="Bounded: every value of the symbolic inputs within the sizes in the evidence's bounds. " + q["note"] +
                           " Trusts clang's lowering, the executor in engine/ (spot-checked by native replay of witnesses) and z3."))
    m = dict(version=1, setup_cmd="/opt/veriftools/pyvenv/bin/python3 engine/setup.py", checks=checks,
             not_applicable=[dict(property=q["id"], reason=q["note"]) for q in NOT_APPLICABLE],
             notes="No hooks: checks compile /repo's unmodified sources to LLVM IR on every run. See DESIGN.md.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
