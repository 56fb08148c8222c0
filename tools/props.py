"""the properties: statement, scope, anchors, deciding method"""
TRUST = ("Decides every path the abstract interpreter of sa/ follows; trusts the interpreter, the "
         "normal form of sa/norm.py and the semantics given to numpy, sympy and mpi4py calls, which stay "
         "uninterpreted. ")
AI = "abstract interpretation of the AST to canonical effect trees / value terms, compared with a reference semantics"
PE = "partial evaluation of the AST over all finite configurations (dimension, axis order, flags), sizes symbolic"

HIST = ("abstract interpretation of the class over all histories of uses up to a length, against a model which records the accesses to "
        "arrays, kernel calls, exchanges and boundary methods")

PROPS = []
NOT_APPLICABLE = {}


def P(id, title, statement, over, text, why, files, mech, technique=AI, note="", na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=(over, text), why=why,
                      files=files, mech=mech, technique=technique, note=TRUST + note))
    if na:
        NOT_APPLICABLE[id] = na


P("C01", "A time step performs its phases in the one valid order",
  "Every time step, for any scheme, boundary set and number of processes, does in this order: initialise if not "
  "done, exchange the ghost layers of the distributions, refresh and apply every boundary condition at the time of "
  "the beginning of the step, run the step kernel, make the freshly written distributions current, and only then "
  "advance the time by one step and the step counter by one. A simulation starts at time 0, counter 0, with a time "
  "step equal to the space step divided by the scheme velocity.",
  ["histories", "configurations"], "all sequences of steps and all boundary / source / backend configurations",
  "tests compare one final state per example; a wrong order that is invisible for steady boundaries or one process passes",
  ["pylbm/simulation.py", "pylbm/algorithm/base.py", "pylbm/boundary.py"],
  [("time step", "Simulation.one_time_step"), ("clock and swap", "Simulation.one_time_step, Simulation.__init__")],
  technique=HIST, note="Histories up to length 3; kernels are the subject of C03.")

P("C02", "Moments and distributions read through the simulation never disagree",
  "Reading a moment, whole array, inner part or one component, gives the moments of the current distributions, "
  "recomputed if anything (time step, assignment of distributions) changed them since; assigning a moment keeps the "
  "other moments current. Converting between the two uses the kernel meant for it on the arrays of this simulation.",
  ["histories"], "all sequences of reads, writes and steps through the simulation",
  "tests read moments after runs only, in one order of accesses",
  ["pylbm/simulation.py"],
  [("stale flag typestate", "Simulation.m, m_halo, F, F_halo, one_time_step"),
   ("conversion", "Simulation.f2m, m2f, equilibrium")],
  technique=HIST, note="Histories up to length 4 (thorough 5).")

P("C03", "Kernels compute transport, moments, relaxation as the scheme states",
  "At every inner point a step takes from each upstream neighbour the distribution travelling to this point, multiplies "
  "by the moment matrix, relaxes each moment towards its equilibrium with its own rate, and multiplies by the inverse "
  "matrix. With a relative velocity the relaxation is done on the moments shifted by it, the conserved moments keeping "
  "their value. Rates which depend on the conserved moments use those of the point. "
  "The separate transport, moment, distribution, equilibrium and relaxation kernels do the same part of the "
  "work, and the way the step is split in loops or uses stored moments does not change the operations applied to a point.",
  ["programs", "configurations"], "all schemes (matrices stay symbolic), dimensions and loop-splitting settings",
  "tests run fixed schemes with the default settings and compare a few final values",
  ["pylbm/algorithm/base.py", "pylbm/algorithm/pull.py", "pylbm/algorithm/transform.py", "pylbm/algorithm/ode.py"],
  [("local formulas", "BaseAlgorithm.*_local, PullAlgorithm"), ("loops", "BaseAlgorithm.transport, f2m, m2f, one_time_step")],
  technique=PE, note="Matrices are symbols; their content is the subject of C04 and C23.")

P("C24", "Source terms act as two explicit half steps around the relaxation",
  "The source terms given for the conserved moments are added twice per time step, before and after the relaxation, each "
  "time with half the time step; all the sources are evaluated with the moments of the same point before any of them is "
  "changed, at the current time, whatever the scheme they are given in, the storage order and the settings of the algorithm. "
  "The separate source kernel does one half step, on the inner points and fluid points it is asked for, and no other moment changes.",
  ["programs", "configurations"], "all source terms (right-hand sides stay symbolic), schemes and settings",
  "two demos have one source term each, with the default settings",
  ["pylbm/algorithm/base.py", "pylbm/algorithm/pull.py", "pylbm/algorithm/transform.py", "pylbm/algorithm/ode.py", "pylbm/scheme.py"],
  [("half step", "BaseAlgorithm.source_term_local, source_term"), ("place in the step", "one_time_step_local of each algorithm"),
   ("names of the moments", "transform_expr, parse_expr")], technique=PE,
  note="Two known findings: sources depending on the coordinates, sources with a relative velocity.")

P("C04", "Moving conserved moments in front is one permutation of everything",
  "Whatever the number and the place of the conserved moments, moving them to the front of their scheme applies the "
  "same permutation to the moment list, the equilibrium values, the relaxation rates, the rows of the moment matrix "
  "and the columns of its inverse, and each conserved moment is then found at the index recorded for it.",
  ["configurations"], "all schemes, all positions of the conserved moments",
  "tests use schemes whose conserved moments are at the front or in a few positions",
  ["pylbm/scheme.py"],
  [("permutation", "Scheme._permute_consm_in_front"), ("location", "Scheme._get_conserved_moments")], technique=PE)

P("C05", "Ghost layers hold exactly the neighbours' interior values after exchange",
  "For every dimension, ghost width and storage order, after an exchange each ghost layer holds the interior layers of the "
  "neighbour process on this side (corners included, periodic wrap and own-rank neighbours included), every message has one "
  "matching partner, and no message is in flight when the exchange returns.",
  ["configurations", "schedules"], "all dimensions (1-3), all storage orders, symbolic sizes and ghost widths, all interleavings of processes",
  "the tests run on one process",
  ["pylbm/storage.py"],
  [("exchange", "Array.update"), ("datatypes", "Array._set_subarray"), ("requests", "Array.update")],
  technique=PE, note="Trusts MPI semantics of subarray datatypes, request completion and Cartesian ranks.")

P("C06", "The sub-domains cover the domain once and know their place in it",
  "For any number of processes along an axis and any number of points, the slices start at 0, end at the number of points, "
  "never overlap or leave a gap, and differ by at most one point; the process of Cartesian coordinates c owns the c[d]-th slice "
  "along each axis d. The local coordinates (with and without ghost points) continue those of the global grid, the global size "
  "is the length of the box over the space step, the topology has the split and periodicity asked for, and a side of a local "
  "box is an interface exactly if the slice does not reach this side of the global box.",
  ["configurations"], "all numbers of points (quotient symbolic), numbers of processes per axis up to a bound, dimensions 1 to 3",
  "the tests run on one process",
  ["pylbm/mpi_topology.py", "pylbm/domain.py"],
  [("partition", "MpiTopology.get_region_indices_, get_region"), ("coordinates", "Domain.create_coords, Domain.__init__"),
   ("interface labels", "Domain.__init__, Domain.__add_init")], technique=PE)

P("C07", "Each boundary condition applies its documented formula at every cut link",
  "The code generated for each boundary condition writes, at every recorded link and only there, the population coming from the "
  "border: bounce-back takes the opposite population of the fluid point next to the border, anti bounce-back its negative, the "
  "Bouzidi variants interpolate linearly with the distance to the border (both cases, distance under and over one half), Neumann "
  "conditions copy the population of the neighbouring point (along the link, or along one axis), and the terms computed from the "
  "prescribed values complete them. All reads are of the points the formula names, never of a population already overwritten in the same pass.",
  ["configurations", "inputs"], "all velocities of model stencils in dimensions 1 to 3 (several schemes, speeds up to 2), all label values, distances on both sides of 1/2, values symbolic",
  "tests cover a few demos whose walls are on the grid or half way",
  ["pylbm/boundary.py"],
  [("index layout", "BoundaryMethod.set_iload, fix_iload of each class"), ("prescribed part", "set_rhs of each class"),
   ("generated update", "generate of each class")], technique=PE,
  note="The sign of one term of BouzidiAntiBounceBack near the wall is a recorded finding.")

P("C08", "Boundary conditions act on exactly the labelled links with the right values",
  "For every label with conditions, scheme and velocity, exactly the links of fluid points cut by this label give a condition, with "
  "their own distance, normal, method and value; periodic and interface sides give none. The populations prescribed on a label are "
  "the equilibrium of the moments set by the function of this label, evaluated at the intersection of the link with the border, with "
  "its additional arguments; time dependent functions, and only these, are evaluated again at each step with the current time. Every "
  "method goes through the same order: indices, code generation before compilation, value, layout, right hand side.",
  ["configurations", "histories"], "several label patterns, dimensions 1 to 3, several schemes, labels with and without function, arguments, time",
  "tests have one time dependent label at most and few label patterns",
  ["pylbm/boundary.py", "pylbm/simulation.py"],
  [("selection of the points", "Boundary.__init__, BoundaryVelocity"), ("values", "BoundaryMethod.prepare_rhs, update_feq"),
   ("order", "Simulation.__init__, _initialize, _update_bc")], technique=PE)

P("C10", "The storage order is invisible: every access agrees on the axes",
  "For every storage order, given by the user or default of the backend, the arrays, their logical view (component, x, y, z), "
  "the inner part, the access by conserved moment, and the indices, extents and loop bounds used by the generated kernels "
  "agree on which stored axis is which logical axis; all arrays of a simulation share one order, the one announced to the kernels.",
  ["configurations"], "all permutations of the axes in dimension 1, 2, 3, with symbolic sizes, ghost widths and velocities",
  "tests use the default order (velocities first or last) on square domains",
  ["pylbm/storage.py", "pylbm/container.py", "pylbm/algorithm/base.py", "pylbm/symbolic.py"],
  [("storage", "Array.__init__"), ("kernel indices", "BaseAlgorithm._get_indexed_on_*, symbolic.indexed, symbolic.set_order"),
   ("order announced", "BaseContainer.__init__, *_set_sorder")], technique=PE)

P("C16", "The HDF5/XDMF files hold the global fields whatever the partition",
  "Whatever the number of processes in each direction and the sizes of the sub-domains (at least two points along an axis), "
  "dimension 2 or 3, the dataset of a field holds at [k, j, i] the value at the point (i, j, k) of the whole domain, vectors have three "
  "components (the missing one zero), the coordinate datasets hold the global coordinates. Every message sent to the writer is received "
  "with its tag, size and type; collective calls are the same on all processes, on the communicator of the topology. The data file is created "
  "and closed once; the XDMF text names each dataset, in this file, with its sizes.",
  ["configurations", "schedules"], "process grids up to 4 by 2 and 2x2x2 with unequal sub-domains, field values symbolic, fields given as arrays or functions",
  "the tests run on one process and read no XDMF file",
  ["pylbm/hdf5.py"],
  [("partition", "H5File.set_grid, _get_slice"), ("gathering", "H5File._set_dset, add_scalar, add_vector"), ("files", "H5File.__init__, save")],
  technique="abstract interpretation of every rank over arrays of symbolic entries, messages matched between ranks",
  note="Trusts MPI and h5py semantics of the calls named in the rule.")

P("C17", "Monitoring is transparent and its times add up",
  "A monitored function is called once with the arguments given and its result is returned or its exception raised unchanged, "
  "whether or not the user asked for monitoring. A call, which may end by an exception, adds to the total time of its function the "
  "difference of the clock after and before it, and to its own time this total less the totals of the monitored calls it made "
  "directly, whatever the nesting, recursion included; each function has one entry counting all its calls.",
  ["histories"], "all nestings of monitored calls up to a bound (siblings, depth, recursion, exceptions), clock values symbolic",
  "no test reads the monitoring tables, and monitoring is switched on by a command line option",
  ["pylbm/monitoring.py"],
  [("wrapper", "monitoring.monitor"), ("clocks", "Monitoring.start_timing, stop_timing")],
  technique="abstract interpretation of call nestings with symbolic clock values")

P("C19", "Every kernel receives the objects its parameters name",
  "Whatever the backend, dimension and extra parameters, a generated kernel is called once, with exactly the parameters it declares, "
  "each bound to the object of this simulation its name stands for: moments and distributions (those the caller gives if he gives "
  "some), the array written by transport, the sizes of these arrays along each axis, coordinates, time, time step, fluid mask and "
  "value, extra parameters by name. A value given by the caller under the name of a parameter is the one received. A boundary kernel "
  "receives the distribution to complete and the indices, right hand side, distances and number of links of its own condition.",
  ["configurations"], "both ways backends declare parameters, dimensions 1 to 3, arguments given or not, sizes symbolic",
  "tests use the one backend available and kernels with few parameters; a wrong binding of an unused parameter passes",
  ["pylbm/algorithm/base.py", "pylbm/boundary.py", "pylbm/simulation.py"],
  [("binding", "BaseAlgorithm._get_args, call_function"), ("boundary", "BoundaryMethod._get_args, update")], technique=PE)

P("C22", "The initial state is the one of the dictionary, at every point",
  "Each entry of `init` sets its own conserved moment (or distribution, with `inittype` distributions) at every point of the domain, ghost "
  "points included, to the value given: a number, or the function of the coordinates of that point, in the order of the axes, followed by "
  "the further arguments given with it. Then the moments are put at equilibrium and the distributions computed from the moments (or the "
  "moments from the distributions), and the two buffers of distributions hold the same values. Without `init` nothing is computed; an "
  "unknown `inittype` is refused.",
  ["configurations", "inputs"], "both backends installed, dimensions 1 to 3, storage orders, kinds and order of the entries; coordinates and values symbolic",
  "tests initialise by moments in the default order, often with values constant along an axis or in the ghost layers overwritten by a boundary condition",
  ["pylbm/simulation.py", "pylbm/storage.py", "pylbm/container.py"],
  [("initial values", "Simulation.initialization"), ("choice", "Simulation.__init__")], technique=PE)

P("C23", "The matrices of a scheme are those of its polynomials and velocities",
  "Row i of the moment matrix of a scheme holds its i-th polynomial evaluated at the velocities of its own stencil times the "
  "scheme velocity, whatever the names of the coordinates, the parameters and the number of schemes; a matrix given by the user is used as "
  "it is; invM is its inverse. With a relative velocity u, Tu changes the moments into those of the polynomials shifted by u and Tmu is "
  "its inverse; without, both are the identity. Equilibria given as distributions become their moments, from the velocities and "
  "arguments of their own scheme.",
  ["programs", "configurations"], "model schemes in dimension 1 to 3 with one or two stencils, symbolic scheme velocity, rates, equilibria, relative velocity",
  "tests use fixed schemes; given distributions, renamed coordinates and relative velocities of several schemes are in none",
  ["pylbm/scheme.py"],
  [("matrices", "Scheme._create_moments_matrices"), ("equilibria", "Scheme._get_equilibrium"), ("symbols", "Scheme._get_space_and_time_symbolic")],
  technique=PE)

P("C15", "Velocity numbers and coordinates determine each other in every stencil table",
  "In every dimension the number and the coordinates of a velocity determine each other by the documented convention (0, 1, -1, 2... on the "
  "line; rings of increasing norm, axes, diagonals, groups of eight in the plane; shells in space, + before -), for all velocities; the "
  "symmetric about the origin or an axis flips exactly the coordinates it should. A stencil keeps the velocities of each scheme in the "
  "order given: its numbers, coordinates, unique velocities, pointers, extrema and symmetric indices are theirs, it is symmetric "
  "when all its schemes are, and its plots label each velocity with its number.",
  ["inputs", "configurations"], "all velocities of dimension 1 and 2 (symbolic), those of norm 3 or less in dimension 3; stencils of one to three schemes",
  "tests read the tables of sorted stencils of a few schemes; large velocities and unsorted or partly shared stencils are in none",
  ["pylbm/stencil.py"],
  [("numbering", "Velocity._set_num, _set_coord, get_symmetric"), ("tables", "Stencil.__init__, get_all_velocities, get_symmetric, is_symmetric"),
   ("plots", "Stencil.visualize")],
  technique="abstract interpretation over polynomials of natural unknowns (numbering); partial evaluation (tables)")

P("C13", "An element says exactly which points it contains and where its border is",
  "For Circle, Ellipse, Triangle, Parallelogram, Sphere, Ellipsoid, the cylinders (between center - w and center + w) and Parallelepiped: "
  "point_inside is true exactly at the points of the element, its border included. distance(grid, v, dmax, normal) gives at each point the "
  "smallest positive alpha such that the point moved by alpha v is on the border, if it is not greater than dmax (None: no limit), and a "
  "value that is not positive otherwise; where it is positive, the label is the one of the face reached (in the order of the list of "
  "labels: the edges, and for a cylinder the sides, the bottom, the top; one integer stands for all), and the normal asked is unitary, orthogonal to "
  "this face and opposed to v. get_bounds encloses the element. The coordinates given are not modified; any set of points of a grid, even thin or "
  "empty, is accepted.",
  ["inputs", "configurations"], "the ten analytic elements, in canonical, rotated and skewed positions; points, sizes, positions, velocities and dmax "
  "symbolic in the cells around these; velocities of norm up to 2",
  "tests compare the bounds of six unit elements and a few domains with axis-aligned elements",
  ["pylbm/elements/"],
  [("quadrics", "distance_ellipse, distance_ellipsoid"), ("edges", "distance_lines"), ("cylinders", "Cylinder")],
  technique="abstract interpretation over terms and sign cells (comparisons decided at a rational witness, values compared on the cell)",
  note="STLElement (triangulated surfaces read from a file) is not covered.")

P("C14", "A domain marks exactly the fluid points, and gives for each link the border it meets first",
  "The unknowns are at the centres of the cells of the box, plus as many ghost points on each side as the largest velocity along this axis. in_or_out "
  "is valin at the points of the box (of the part of the box owned by the process) whose last element that contains them, if any, is a fluid "
  "part, and valout at the other ones, ghost points included. For a fluid point and a unique velocity whose displacement leaves the fluid "
  "by its first border and stays out: distance is the fraction of the displacement made at this border (a wall of the box or "
  "an element alike), flag its label, and normal its unit normal, directed out of the fluid; where several borders are met at the same "
  "point, one of them. A periodic border (label -1) is a border of lower priority, which hides no wall; an interface with another "
  "process is no border, and the elements are seen across it. Everywhere else (the displacement stays in the fluid, or the point is not "
  "fluid), distance and flag are valin; the normal is zero at the points which are not fluid.",
  ["inputs", "configurations"], "1, 2, 3 dimensions, several schemes, walls and periodic borders, one or several solid and fluid elements that overlap, "
  "cross the borders of the box or the interfaces, parts of the box; displacements which cross several borders of elements in one step are not specified",
  "tests compare a few 1-D and 2-D domains with one axis-aligned element on one process",
  ["pylbm/domain.py", "pylbm/geometry.py", "pylbm/stencil.py"],
  [("box", "Domain.__add_init, __add_box"), ("elements", "Domain.__add_elem"), ("coordinates", "Domain.create_coords"), ("elements in order", "Geometry")],
  technique=PE,
  note="The elements answer with the true geometry here: their own computations are those of C13.")

P("C21", "The stability analysis and the equivalent equations are those of the scheme",
  "The matrix Stability works with is the derivative, at an equilibrium state, of the distributions after the relaxation with respect to those "
  "before (relative velocity included), and its velocities are those of the distributions, in the same order. For each wave vector of the grid "
  "over [0, 2 pi) in each direction, the eigenvalues returned are those of this matrix, the linearization state and the parameters put in, times "
  "the diagonal of exp(i v.xi). is_stable_l2 is 0 if for all of them the characteristic polynomial has its roots inside the unit circle or simple "
  "on it, 2 if for one of them a root is outside, 1 otherwise; this answer does not depend on the scale of the polynomials. EquivalentEquation holds, "
  "for each axis, the flux of the conserved moments at equilibrium, and for each pair of axes the matrix of the second order term of the Taylor "
  "expansion of the scheme.",
  ["inputs", "configurations"], "1, 2, 3 dimensions, one or several conserved moments in any place, one or two schemes, any equilibrium, rates, scheme velocity, "
  "relative velocity; all the polynomials of degree 1 to 4 by one step of the recursion",
  "no test looks at a matrix, a verdict or a coefficient",
  ["pylbm/analysis/stability.py", "pylbm/analysis/equivalent_equation.py", "pylbm/scheme.py", "pylbm/symbolic.py"],
  [("amplification matrix", "Stability.__init__, eigenvalues"), ("Cohn-Schur criteria", "is_S, is_svN, is_vN, algo_cohn_schur"),
   ("Taylor expansion", "EquivalentEquation.__init__")],
  technique=PE,
  note="Equilibria are affine or rational with symbolic coefficients; the criteria are formulas over symbolic coefficients, evaluated at representative "
       "polynomials, their recursive calls answered by the definition. Round-off is not bounded.")

P("C09", "The numerical solution does not depend on the number of processes",
  "The fields computed by a simulation are the same, point by point, whatever the number of processes and their topology.",
  ["configurations", "schedules"], "all simulations, all numbers of processes",
  "tests run on one process", ["pylbm/storage.py", "pylbm/mpi_topology.py", "pylbm/simulation.py"],
  [("exchange", "Array.update"), ("partition", "MpiTopology")],
  na="A statement on floating point results of generated binaries. Its structural parts are decided: what is exchanged (C05), which points "
     "each process owns (C06), which links it treats (C08), when (C01), what is written (C16). No sound static argument over the "
     "compiled kernels bounds their results.")

P("C11", "All backends compute the same solution",
  "The NumPy, Cython and loopy backends give the same fields for the same simulation, up to rounding.",
  ["configurations", "programs"], "all schemes and backends",
  "tests compare a few demos of each backend with stored results", ["pylbm/generator", "pylbm/algorithm/base.py"],
  [("printers", "pylbm/generator/printing"), ("backends", "generator/autowrap.py")],
  na="Equality of floating point results of programs printed in three languages and compiled by gcc, loopy or run by numpy; the kernels are compared "
     "as expressions before printing (C03, C24) and with the arrays they get (C19), the rest depends on compilers.")

P("C18", "Conserved moments are conserved up to rounding on periodic domains",
  "Without source, on a periodic domain, the sum over the domain of each conserved moment stays constant up to rounding.",
  ["histories"], "all schemes with conserving equilibria, all numbers of steps",
  "tests compare fields of a few demos", ["pylbm/simulation.py", "pylbm/scheme.py"],
  [("relaxation", "BaseAlgorithm.relaxation_local"), ("transport", "BaseAlgorithm.transport_local")],
  na="A bound on accumulated floating point rounding over any number of steps of a generated kernel; the exact algebra (relaxation leaves the "
     "conserved moments unchanged, transport moves each distribution once) is part of C03 and C05.")
