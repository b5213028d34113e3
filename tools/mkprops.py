#!/usr/bin/env python3
# Source of /verif/properties.jsonl: run `python3 tools/mkprops.py` after editing.
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,id; P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","Parameters read back exactly what was last set, whoever set it",
 "Whatever a parameter file, a command line override or the program itself last set for a parameter is what every later query of it returns: as text, as integer or floating point number, as yes/no, and as whitespace separated list, and repeated or cached queries never return an older value. Parameter files mean the same thing however they are formatted: comments, blank lines, spacing around '=', multi-line values, and declarations made before or after the file is read do not change the values. A list membership query is true exactly when the asked word is a whole entry of the list.",
 ["inputs","histories"],"every parameter file text, every command line and every interleaving of declaring, setting, appending, copying and querying parameters",
 "The tests run fixed parameter files with well-formed values and look only at physics errors; they never compare a parsed value with the text, never interleave updates with cached queries, and use no adversarial names or lists.",
 ["src/main/main/parameters.c","src/main/main/main.c","src/main/main/utilities.c"],
 [("parameter database, file parser, list queries","src/main/main/parameters.c"),("command line options","src/main/main/main.c: read_command_line, parse_command_line_options"),("word splitting, line reading","src/main/main/utilities.c")],
 ["values returned by the query functions in a harness linked with the real library","parameters printed/used by a real run"],
 [("global parameter table","name, value, description and cached number per parameter","src/main/main/parameters.c: pdb")])

prop("C02","Variables, tensor components and variable lists stay consistent",
 "Declaring a variable with a tensor index pattern creates exactly the components that the pattern's symmetries leave independent, with consecutive indices, distinct names and the right sign under reflection of each coordinate axis; names and indices map to each other one to one and the attributes stored for a variable are the ones last set. Variable lists behave as ordered lists of those indices: pushing, appending, dropping and duplicating give exactly the expected sequence, and copying or combining lists of variables acts on every grid point of every listed variable and on nothing else.",
 ["inputs","histories"],"every index pattern in the tensor table, every sequence of declarations and list operations, every grid shape",
 "The tests only use the few variables the shipped problems declare; no test inspects component tables, parities or list contents.",
 ["src/main/main/variables.c","src/main/main/tensors.c","src/main/MemoryMan/storage.c","src/main/MemoryMan/lists.c"],
 [("variable database","src/main/main/variables.c"),("tensor index tables","src/main/main/tensors.c"),("list algebra","src/main/main/variables.c: vl*, varcopy*, varadd*")],
 ["variable names, indices, symmetry factors and data arrays seen by a linked harness"])

prop("C03","Grid storage: right size, right contents, nothing stale, leaked or shared",
 "At every point of a run each variable either has no storage or has exactly one zero-initialised array per box with one slot per grid point; enabling, disabling, re-enabling, resizing and copying grids or boxes never loses or mixes data of other variables, and a copied grid owns its own data, so changing one never shows in the other. Point lists, subbox selections and face descriptions report exactly what was put into them, in order, and duplicates are equal and independent. Everything that was allocated is released exactly once, and no access falls outside an allocation.",
 ["histories","configurations"],"every sequence of grid, box, variable storage, point list, integer list and face operations",
 "Test runs build one grid, enable storage once and exit; no test copies a grid, resizes a box, duplicates point lists, or runs with a memory checker.",
 ["src/main/MemoryMan/grid.c","src/main/MemoryMan/storage.c","src/main/MemoryMan/points.c","src/main/MemoryMan/lists.c","src/main/MemoryMan/list_templates.c","src/main/MemoryMan/boxlists.c"],
 [("grid/box allocation and copy","src/main/MemoryMan/grid.c"),("variable storage","src/main/MemoryMan/storage.c"),("point lists","src/main/MemoryMan/points.c"),("integer lists","src/main/MemoryMan/list_templates.c"),("faces","src/main/MemoryMan/boxlists.c")],
 ["public accessors in a linked harness under AddressSanitizer/LeakSanitizer/UBSan, compared with a reference model"])

prop("C04","Scheduled functions run once each, in registration order, at their time",
 "Every function a module registers for a time bin runs exactly once each time that bin is reached, in the order of registration, also when functions are added while the program runs or are registered in several bins; the bins themselves follow the documented program order for each grid, time step and parameter iteration. A run that iterates over (equally long) lists of parameter values, or executes several runs from an argument file, performs exactly one full cycle per listed value or line, each with its own output directory, named after the parameter file wherever it is, and with the listed values.",
 ["histories","configurations"],"every set of registrations and removals, every parameter iteration table and argument file",
 "Tests run one parameter file each and look at final errors; only convergence tests iterate parameters and none checks order, multiplicity or the directories produced.",
 ["src/main/main/skeleton.c","src/main/main/main.c","src/main/main/parameters.c"],
 [("time bins","src/main/main/skeleton.c"),("main loop, restarts","src/main/main/main.c"),("parameter iteration","src/main/main/parameters.c: iterate_parameters")],
 ["event log written by a probe module compiled into the real program","output directories of real runs"])

prop("C05","Starting a run touches only its own output directories",
 "Starting a run leaves a fresh output directory containing a copy of the parameter file, moves the complete previous output directory (if any) to the name with suffix _previous after removing what had that name, and with the keep option leaves the _previous directory alone. It never modifies or deletes anything outside these two directories, whatever files, symbolic links, nested directories or odd names they contain and whether the parameter file is named by relative or absolute path. It refuses to start, without deleting anything, when only the previous directory holds a checkpoint.",
 ["inputs","histories"],"every prior content of the working directory, every parameter file path and every sequence of runs",
 "Tests start each run in an empty directory; directory rotation, links and the refusal are never exercised.",
 ["src/main/main/main.c","src/main/main/utilities.c","src/utility/checkpoint/checkpoint.c","src/utility/checkpoint/checkpoint_write.c"],
 [("directory rotation","src/main/main/main.c: make_output_directory"),("recursive removal, rename, mkdir","src/main/main/utilities.c")],
 ["complete before/after snapshots of a scratch directory around real runs"])

prop("C06","A run resumed from a checkpoint continues exactly as if never interrupted",
 "A run that stops and is resumed from its checkpoint, possibly several times, produces the same final variables, time, iteration count and later output as one uninterrupted run, for every integrator and for every kind of box and boundary. Values of variables, coordinates, grid sizes and parameters read from a checkpoint are bit for bit those that were written, except for the settings the user deliberately changes on resuming.",
 ["crash_points","configurations"],"every stopping iteration, every number of interruptions, every integrator and every set of variables and parameters",
 "No test stops and resumes a run.",
 ["src/utility/checkpoint/checkpoint.c","src/utility/checkpoint/checkpoint_read.c","src/utility/checkpoint/checkpoint_write.c","src/utility/checkpoint/parameterio.c","src/utility/evolve/evolve.c"],
 [("checkpoint write and read","src/utility/checkpoint/*.c"),("evolution state","src/utility/evolve/evolve.c")],
 ["checkpoint files and dumps of final state of real runs"])

prop("C07","Crash or disk failure while checkpointing never loses the last good checkpoint",
 "Once a run has written a checkpoint, then at every instant, in particular if it is killed, or a file operation fails, while a checkpoint is being replaced or while a resumed run moves and copies the old output, the output directory, or its _previous directory, holds a complete checkpoint from which the run can be resumed, and never one that is older than the newest completed before. A failure to write a checkpoint, or to move or copy the old output, is reported and stops the run instead of silently replacing the good checkpoint by an incomplete or older one.",
 ["crash_points","fault_sequences"],"a crash or an I/O error at every system call made while a checkpoint is written and put in place",
 "No test writes a checkpoint, and none injects crashes or I/O errors.",
 ["src/utility/checkpoint/checkpoint.c","src/utility/checkpoint/checkpoint_write.c"],
 [("write to temporary name, then rename","src/utility/checkpoint/checkpoint.c: checkpoint_write, checkpoint_openfiles")],
 ["files left in the output directory after a kill or injected error at each I/O call of a real run, and real resumes from them"])

prop("C08","Damaged or mismatched checkpoints are refused, never silently used",
 "Resuming from a checkpoint that is truncated, has a damaged header or section marker, names a box or a number of points that does not exist in the run, lacks a parameter it announces or an evolved variable, or has the wrong amount of data for any variable, ends with an error message and a nonzero exit status; it never crashes on a memory error and never continues with partly read data. Data of variables the run does not have are skipped, and neither they nor the order of the variables change what is read into others.",
 ["inputs","fault_sequences"],"every truncation and every structural corruption of a checkpoint file",
 "No test reads a checkpoint at all.",
 ["src/utility/checkpoint/checkpoint.c","src/utility/checkpoint/checkpoint_read.c","src/utility/checkpoint/checkpoint_write.c","src/utility/checkpoint/parameterio.c"],
 [("section reading and validation","src/utility/checkpoint/*.c"),("scanning for markers","src/main/main/utilities.c: fgotonext, fgetparameter, fscanline")],
 ["exit status, messages and sanitizer reports of real resumes from damaged files"])

prop("C09","Output files contain exactly the grid data due, once, at the right times",
 "Every requested output of a variable, in every dimension and format (0D norms, 1D lines, 2D planes, 3D dump, and 3D VTK as text or binary, float or double, with rectilinear, added or fake points), is written exactly at the iterations or times requested by Ndoutiter or Ndouttime (for a time that is not a multiple of the timestep at the closest timestep), once each, in order and never overwriting an earlier one, and decodes to exactly the values (to the precision of the format) and coordinates of the grid points it claims to show, for every box where the variable has storage, including time, index and position labels; lines and planes go through the grid points closest to the requested position. Variables marked constant are only written at iteration 0, Ndoutputall writes every component. 0D max, min, rms, meanAbs, mean and VolInt equal the values recomputed from the full grid data. Output changes no variable, parameter, time or iteration; quick_Vars_output, quick_VarList_output and quick_Array_output write the named variables the same way and restore everything.",
 ["configurations","inputs"],"every output request (dimension, format, interval, boxes, line or plane position) and every grid and variable content",
 "Tests parse a few 0D error norms only; no test compares 1D/2D/3D/VTK files with the data or checks output times.",
 ["src/utility/output/output.c","src/utility/output/output0d.c","src/utility/output/xgraph_out1d.c","src/utility/output/gnuplot_out2d.c","src/utility/output/output3d.c","src/utility/output/dump3d.c","src/utility/output/VTK_out.c","src/utility/output/quick_out.c"],
 [("output scheduling","src/utility/output/output.c: timeforoutput*"),("writers per dimension","src/utility/output/*.c")],
 ["output files of real runs, decoded by an independent reader, compared with grid data recorded by a module right before each output"])

prop("C10","Binary data round trips byte for byte in both byte orders",
 "Writing arrays of numbers in either byte order produces exactly the standard byte representation of that order, and reading them back, on this machine, returns bit-identical numbers for every bit pattern including NaN payloads, infinities, signed zeros and denormals. Partial reads and writes report exactly how many elements were transferred and do not disturb others.",
 ["inputs"],"every element count, element type, byte order and bit pattern; short files",
 "No test exercises binary input/output.",
 ["src/main/main/endianIO.c"],
 [("byte order detection and swapping","src/main/main/endianIO.c")],
 ["bytes in files and values returned, compared with an independent encoder"])

prop("C11","Time integration: advertised order, exact bookkeeping, steps in sequence",
 "Each time integrator advances the evolved variables with the accuracy order it advertises and reproduces its textbook one-step formula on arbitrary right hand sides; each full step advances time by exactly dt and the iteration count by one, applies boundary conditions and constraints to every stage, and touches only the evolved variables. The run ends at the requested number of iterations or at the step nearest to the requested final time.",
 ["configurations","inputs","histories"],"every integrator, step size, right hand side and set of evolved variables and boxes",
 "The tests check the order of one integrator on one problem; the others, multi-variable multi-box states, algebraic-constraint hooks and the run loop's ending are untested.",
 ["src/utility/evolve/evolve.c","src/utility/evolve/rk.c","src/utility/evolve/icn.c","src/main/main/skeleton.c"],
 [("integrators","src/utility/evolve/*.c"),("run loop","src/main/main/skeleton.c: evolve_grid")],
 ["variables after each step recorded by a probe module with a known right hand side, compared with an independent implementation of the formulas"])

prop("C12","Spectral derivatives are exact on resolvable functions in every box",
 "In every box and direction, for every basis, grid size and interval, first and second derivatives (single, mixed and combined calls alike) of a function that the basis can represent equal the analytic derivative up to rounding, and finite difference bases are exact on polynomials of their order. All transform methods, matrix multiplication and fast transforms, agree with each other to rounding, and transforming to coefficients and back returns the original values.",
 ["inputs","configurations"],"every basis, number of points, interval, transform type, derivative direction and resolvable function",
 "Tests sample a few resolutions of shipped problems with loose error bounds, and never compare transform methods or odd, tiny or anisotropic point counts.",
 ["src/utility/Spectral/derivs.c","src/utility/Spectral/spec_coeffs.c","src/utility/Spectral/diffmatrices.c","src/utility/Spectral/FFTs_for_sgrid.c","src/utility/Spectral/matrices.c","src/utility/Spectral/finite_differences.c"],
 [("derivatives","src/utility/Spectral/derivs.c"),("coefficients","src/utility/Spectral/spec_coeffs.c"),("transform choice","src/utility/Spectral/sgrid_Spectral.c, init_box")],
 ["derivative and coefficient arrays computed by the real library versus analytic values in long double"])

prop("C13","Spectral interpolation and integration are exact on resolvable functions",
 "Interpolating a function that the bases can represent, to any point of the box and from the volume, from a plane or along a line, returns its analytic value up to rounding, and at grid points the grid value; interpolating from one grid to another preserves such functions. One, two and three dimensional integrals, surface and box volume integrals of such functions equal the analytic integral.",
 ["inputs","configurations"],"every basis, number of points, interval (also ones not starting at zero), target point, direction and resolvable function",
 "Tests use interpolation and integrals only indirectly in a few problems.",
 ["src/utility/Spectral/interpolate.c","src/utility/Spectral/integrals.c","src/utility/Spectral/spec_coeffs.c"],
 [("interpolation","src/utility/Spectral/interpolate.c"),("integration","src/utility/Spectral/integrals.c"),("basis functions","src/utility/Spectral/spec_coeffs.c")],
 ["values returned by the real library versus analytic values"])

prop("C14","Filters remove exactly the modes they should and keep the rest",
 "Spectral filters act as projections: coefficients below the cutoff are unchanged, those above are removed, so resolvable low modes pass unchanged and filtering twice equals filtering once. The spherical harmonic filter keeps every harmonic up to its documented degree (n2/4-1, less the requested shift), removes every higher one the angular grid resolves, on each sphere, in every box, independent of the other boxes, shells and variables.",
 ["inputs","configurations"],"every basis, grid size, cutoff, mode and combination of modes",
 "Tests check six harmonics on one grid; the coordinate dependent and general filters and other sizes are unchecked.",
 ["src/utility/Spectral/filters.c","src/utility/s2kit/YlmFilter.c","src/utility/s2kit/s2kit_naive_synthesis.c","src/utility/Coordinates/coordFilters.c"],
 [("coefficient filters","src/utility/Spectral/filters.c"),("harmonic transform and filter","src/utility/s2kit/*.c")],
 ["grid data before and after filtering versus an independent projection"])

prop("C15","Spherical harmonic functions are orthonormal and satisfy their identities",
 "Scalar and spin-weighted spherical harmonics agree with independently computed values for all degrees, orders and angles in range, including the poles; they are orthonormal on the sphere, obey the conjugation symmetry, and tabulated, directly evaluated and differentiated versions agree. Expanding a band limited function on a sphere in harmonics and summing the series returns the function; this holds for the expansion of surfaces made of cubed sphere patches and for the modes the mode extraction module writes for each stored time, for every grid symmetry it reads (full sphere, bitant, rotant, quadrant, octant).",
 ["inputs"],"every degree, order, spin weight, angle and table size",
 "Tests only pass single harmonics through one filter; the tabulated, spin-weighted and derivative functions are never compared with reference values.",
 ["src/utility/Spectral/SphericalHarmonics.c","src/physics/ModeComputer/SpinWeightedSphericalHarmonics.c","src/utility/s2kit/s2kit_pmls.c"],
 [("Ylm tables and expansions","src/utility/Spectral/SphericalHarmonics.c"),("spin weighted harmonics","src/physics/ModeComputer/SpinWeightedSphericalHarmonics.c"),("Legendre functions for the filter","src/utility/s2kit/s2kit_pmls.c")],
 ["function values versus an independent implementation (Wigner d sums, scipy)"])

prop("C16","Coordinate maps are consistent: inverse, derivatives and point search agree",
 "For every coordinate type, the map from computational to Cartesian coordinates is the documented one, its first and second derivatives (as functions and as stored on the grid) agree with it at every point where the map is regular, and Cartesian derivatives computed on the grid equal the analytic derivatives of smooth functions to discretisation accuracy. A search for the computational coordinates of a Cartesian point never returns a point that does not map back to it or that lies outside its box; it finds every point of a cubed sphere and, for the coordinates inverted by Newton iteration, every point from a guess near it. The cubed sphere arrangements (13, 26, 32, 38 boxes) cover their region exactly once. Nearest-point searches return the nearest grid point, averaging double covered points and the pole filters do what they say.",
 ["inputs","configurations"],"every coordinate type and its parameters, every point of the box and target points inside, outside and on the boundary",
 "Tests look at derivative errors of a few functions at fixed resolutions and parameters; inverse maps, searches and parameter variations are not tested.",
 ["src/utility/Coordinates/Coordinates.c","src/utility/Coordinates/findXYZ_of_xyz.c","src/utility/Coordinates/coordtrans_CubedSphere.c","src/utility/Coordinates/transfDerivs.c","src/utility/Coordinates/cartesianDerivs.c"],
 [("coordinate types","src/utility/Coordinates/*.c"),("inverse search","src/utility/Coordinates/findXYZ_of_xyz.c"),("derivative transformation","src/utility/Coordinates/transfDerivs.c, cartesianDerivs.c")],
 ["transformation functions and grid variables versus high order numerical differentiation and brute force"])

prop("C17","Box faces: every face point belongs to one patch and matches its neighbour",
 "After a multi-box grid is set up with the default face algorithm, every inner point of a box face belongs to exactly one face patch and edge points to at most one per face; a patch that names a neighbour box names one that really lies just outside those points, patches marked as outer boundary contain exactly points that have no box just outside, patches that touch are paired with each other, patches marked as having the same points coincide point by point, and otherwise the recorded neighbour coordinates map to the same Cartesian points. The alternative algorithm does the same wherever neighbouring faces coincide. Interface conditions built from the patches are set at all interface points and nowhere else, vanish for any smooth function resolved in all boxes and equal the jump of the function or of its normal derivative, as the patch demands, for data that jumps across the interface; exactly one of two touching patches demands the derivative condition and overlapping patches never do.",
 ["configurations"],"every built-in multi-box arrangement, box sizes, point counts and face options",
 "Tests use a few arrangements and only see the final solution error of an elliptic problem.",
 ["src/utility/Coordinates/Coordinates_set_bfaces.c","src/utility/Coordinates/setup_CubedSpheres.c","src/utility/boundary/BCs_from_bfaces.c","src/main/MemoryMan/boxlists.c"],
 [("face population","src/utility/Coordinates/Coordinates_set_bfaces.c"),("cubed sphere arrangements","src/utility/Coordinates/setup_CubedSpheres.c"),("interface conditions","src/utility/boundary/*.c")],
 ["face lists read from the real grid after real setup, checked against brute force geometry"])

prop("C18","Boundary conditions change exactly the boundary points, to the documented value",
 "The outer conditions (radiative, radiative_analytic, constant) write exactly the outermost sphere of the last box if it has spherical coordinates and otherwise its six outer planes; the excision conditions (constant, simple, von Neumann, for all or for selected variables) write exactly the innermost sphere of the first box if that is spherical; every other point, box (inactive ones included) and variable keeps its bits. The radiative condition gives a variable of speed v and far limit f the time derivative -v(u-f)/r - v d_r u (radiative_analytic: that of the difference from the initial data, also after resuming from a checkpoint, and none for the variables listed as constant), the constant conditions keep the value, simple excision lets the point change like its neighbour, and the von Neumann condition makes the normal derivative zero, whether the integrator asks for new values or for time derivatives and whatever auxiliary variables it uses. The functions that set a value or a normal derivative on a list of points do so there and only there, and the list of all box boundaries holds every non-periodic face.",
 ["configurations","inputs"],"every boundary type, box type, variable attribute set, integrator and field content",
 "Tests use boundary conditions inside a few evolutions and look only at global errors.",
 ["src/utility/boundary/boundary.c","src/utility/boundary/radiative.c","src/utility/boundary/excision.c","src/utility/boundary/BCs.c"],
 [("boundary point lists and conditions","src/utility/boundary/*.c")],
 ["variable arrays before and after, versus an independent formula"])

prop("C19","Linear solvers return real solutions, or say that they failed",
 "For every linear problem on a grid (any variable list, couplings between boxes, inactive boxes), the direct solvers (LAPACK, UMFPACK, SuiteSparseQR) return the solution to rounding, and the iterative ones (bicgstab alone and with the UMFPACK, Jacobi, block Jacobi and SOR preconditioners, SOR, WTsolver) return success only if the true residual norm of the returned vector is within the requested tolerance; running out of iterations, break down, singular or non-finite systems give a negative return value or stop the run. The residual norm they report is that of the returned vector; no variable other than the unknowns and work variables is changed and no storage is left behind. The sparse matrix read off a linear operator (all lines and column orders, one variable in one box or sub-box, Matrix Market files, compressed columns) has exactly the entries of the operator, and products, transposes, array copies and norms computed from them are right.",
 ["inputs","configurations"],"every operator, right hand side, start vector, preconditioner, tolerance, iteration limit and grid decomposition",
 "Tests see only whether a nonlinear solve of a few problems converged with the default solver; solver-by-solver honesty, matrices and failures are untested.",
 ["src/utility/GridIterators/bicgstab.c","src/utility/GridIterators/wrappers_for_JacobiPrecon.c","src/utility/GridIterators/wrappers_for_UMFPACK.c","src/utility/GridIterators/WTsolver.c","src/utility/GridIterators/SOR.c","src/utility/LinAlg/ReadMatrixFrom_Fx.c","src/utility/LinAlg/SparseVector_utils.c","src/utility/LinAlg/umfpack_dl_interface.c","src/utility/LinAlg/lapack_interface.c"],
 [("iterative solvers and preconditioners","src/utility/GridIterators/*.c"),("matrix assembly, direct solvers","src/utility/LinAlg/*.c")],
 ["solution, return value and reported norm versus an independently computed residual"])

prop("C20","Newton solvers converge to a root or report failure, never pretend",
 "The Newton solver for grids reports fewer iterations than the limit only if the true residual norm of the variables it leaves behind is within the requested tolerance, and the residual it reports is always the true one. In each step the linear solver is given the residual at the current point, the tolerance max(residual*factor, lower bound) and a start vector of zero; the variables then change by exactly minus a multiple of the linear solution: the multiple is 1 without line search, and with backtracking no step increases the residual norm. If the linear solver fails, the variables stay as they are, the run quits, an alternative solver is used or a random step is made, as configured; the correction and no other variable is left changed, and user hooks are called once per step with the data of that step. The small dense Newton solvers (with line search by finite difference Jacobian, or with user given Jacobian and linear solver) return a non-negative count within the limit only at a root to tolerance or flag a spurious minimum, report limits reached, linear failures and functions that are not finite by their return value, and never increase |F|. Elliptic problems solved with different linear solvers and resolutions converge to the same solution.",
 ["inputs","configurations"],"every system of equations, start vector, tolerance and iteration limit",
 "Tests run convergent default problems only; failure paths, stagnation and badly scaled systems are not exercised.",
 ["src/utility/GridIterators/Newton.c","src/utility/GridIterators/Newton_linesrch.c","src/utility/numerics/newton_linesearch.c","src/utility/numerics/NumericUtils_shims.c","src/utility/NumericUtils/WT_newton.c","src/utility/NumericUtils/newton_lnsrch.c"],
 [("grid Newton","src/utility/GridIterators/Newton.c"),("small dense Newton","src/utility/numerics/newton_linesearch.c")],
 ["returned state, status and norm versus recomputed residual; residual history in the log"])

prop("C21","One dimensional root finders, minimisers, ODE and LU solvers keep their contract",
 "Given finite bracket ends with function values of opposite sign, the bracketing root finders evaluate the function only inside the bracket, at most two times more often than the iteration limit, and return a point inside it that is within the requested accuracy of a sign change (for the Newton variants: of a simple root); they give a negative return value if there is no sign change or a value is not finite, and a count above the limit (or negative) if they ran out of iterations. The bracket finders say whether the interval they leave behind has a sign change, and only widen it. The minimum bracketer returns a downhill triple with its true function values, stops if values are not finite, and Brent's minimiser returns the minimum of a unimodal function within tolerance and the true value there. The LU routines solve every well conditioned system (also badly scaled ones), give factors, permutation and determinant of the matrix, and return the number of a row or column of zeros without changing the matrix. The ODE integrators reach the end point, forward and backward, within a moderate multiple of their tolerance, give the same accuracy at the stored output points, never evaluate outside the interval, and report if they cannot reach the end. Trapezoid, Romberg, 3D and grid integrals and Powell's minimiser give the exact answers to tolerance. The switching functions are monotone, have the stated end values, half points and slopes, and the derivative functions are their derivatives.",
 ["inputs"],"every function, bracket, tolerance, iteration limit, matrix and ODE system",
 "Tests run one small Newton program; none of the other routines is called directly by a test.",
 ["src/utility/numerics/rtbrent_brak.c","src/utility/numerics/newton1d_brak.c","src/utility/numerics/minbrent_brak.c","src/utility/numerics/lu.c","src/utility/numerics/GSL_odeint.c","src/utility/numerics/attenuation.c","src/utility/numerics/rt_brak.c","src/utility/numerics/NumericUtils_shims.c","src/utility/NumericUtils/odeintegrate.c","src/utility/NumericUtils/zbrent.c","src/utility/NumericUtils/integral.c"],
 [("1D roots, minima, ODE, LU, switching","src/utility/numerics/*.c")],
 ["returned values and status for generated problems with known answers"])

prop("C22","Results do not depend on the number of threads, and parallel loops do not race",
 "Functions whose loops are marked for OpenMP (derivatives, spectral transforms, interpolation, variable list operations, Cartesian derivatives, double covering, spherical harmonic filter, setting up matrices from linear operators, sparse matrix products, block preconditioners), and whole runs, give the same results with any number of threads and any scheduling of the parallel loops as with one thread: exactly, except for the rounding of sums over threads and what iterative solvers make of it. This holds with the default choice of pragma levels and with all levels switched on. No two threads access the same memory location concurrently with at least one write and without synchronisation.",
 ["schedules","configurations"],"every thread count and every interleaving of the parallel regions",
 "All tests run with one thread.",
 ["src/utility/Spectral/derivs.c","src/utility/Spectral/OpenMPsave_loops.h","src/utility/LinAlg/ReadMatrixFrom_Fx.c","src/utility/GridIterators/wrappers_for_JacobiPrecon.c","src/main/main/variables.c","src/main/main/sgrid_main.h","src/utility/Coordinates/Coordinates.c"],
 [("parallel pragmas","src/main/main/sgrid_main.h and all parallel loops"),("critical sections","src/utility/LinAlg/SparseVector_utils.c")],
 ["ThreadSanitizer reports with an instrumented OpenMP runtime; final outputs for different thread counts and schedules"])

prop("C23","Shipped problems run without memory errors or undefined behaviour",
 "Every problem set-up shipped with the code, also with other resolutions, bases, transforms, integrators, boundary conditions, listed options and output than shipped, runs to its end, or stops with an error message, without reading or writing outside allocated memory, using freed or uninitialised memory, or other undefined behaviour.",
 ["configurations","inputs"],"every shipped parameter file and variations of its resolution, output, boundary and integrator options",
 "The tests run uninstrumented executables, so silent memory errors pass; one shipped problem is run only in the executable where it happens not to abort.",
 ["src/physics/testwave/testwave.c","src/physics/ScalarWave/ScalarWave.c","src/physics/Poisson/Poisson.c","src/physics/Poisson3/Poisson3.c","src/physics/TestDerivs/TestDerivs.c","src/physics/ScalarOnKerr/ScalarOnKerr.c","src/physics/BSSN/BSSN.c","src/physics/Z4secondO/Z4secondO.c"],
 [("all modules","src/")],
 ["AddressSanitizer, UBSan and valgrind reports of real runs"])

prop("C24","Evolved relativity: exact solutions stay put, constraints hold pointwise",
 "The ADM constraint and curvature routines and the BSSN and Z4 right hand sides compute the documented expressions, at every point and for every setting of the equations' options, for arbitrary smooth data: exact vacuum space times (flat space and black holes in arbitrary moving coordinates) give vanishing constraints and the exact rates of change, converting from metric variables to BSSN variables and back returns the metric variables, the black hole and test wave data are the documented exact data with psi and derivatives of psi that belong together, the ADM energy on a sphere is the surface integral of the documented density, and gauge waves evolve as the moving exact solution. The algebraic constraints that are switched on (unit determinant, trace free) hold to rounding after every step at every point, and fields whose switches are off are left alone.",
 ["inputs","configurations"],"every smooth metric, lapse and shift field, constraint settings and grid",
 "Tests check constraint norms of a few short runs against recorded numbers, so an error present in all runs, or in a switch no test uses, is invisible.",
 ["src/physics/BSSN/BSSN_rhs.c","src/physics/BSSN/BSSN_init.c","src/physics/BSSN/BSSN_AlgConstr.c","src/physics/ADMvars/ADMconstraints.c","src/physics/SingleBH/SingleBHKS.c","src/physics/Z4secondO/Z4secondO.c"],
 [("BSSN","src/physics/BSSN/*.c"),("constraints","src/physics/ADMvars/ADMconstraints.c"),("Kerr-Schild data","src/physics/SingleBH/*.c")],
 ["grid variables in real runs versus independently differentiated analytic metrics"])

prop("C27","Example physics modules solve the equations they state",
 "The scalar field and elliptic modules implement their stated equations for arbitrary fields, options and grids: the black hole background of the scalar field module (metric, inverse, Christoffel symbols, lapse, shift, extrinsic curvature and derivatives) is the exact Kerr-Schild one, the rates of change of the scalar field are those of the sourced wave equation on it, in second and first order form, inside, at interfaces of shells and with the stated outgoing conditions outside; the flat wave module starts from the stated wave packets, evolves them by the stated (non)linear wave equation and reports the stated energy density; the residuals of the elliptic modules are those of the stated equations, interface and boundary conditions, vanish for the known exact solution, and the linearised operator each gives to the Newton solver is the exact derivative of its residual at every point.",
 ["inputs","configurations"],"every smooth field, black hole, time step, option and grid",
 "Tests compare a handful of converged solutions with recorded errors: a wrong linearisation still converges, and most of the scalar field code is run by none of them.",
 ["src/physics/ScalarOnKerr/ScalarOnKerr.c","src/physics/ScalarOnKerr/Kerr.c","src/physics/ScalarWave/ScalarWave.c","src/physics/Poisson/Poisson.c","src/physics/Poisson2/Poisson2.c","src/physics/Poisson3/Poisson3.c","src/physics/Poisson3/Poisson3_BCs.c"],
 [("scalar field on Kerr","src/physics/ScalarOnKerr/*.c"),("scalar wave","src/physics/ScalarWave/*.c"),("elliptic examples","src/physics/Poisson*/*.c")],
 ["grid variables after calls of the modules' own functions on real grids versus independent analytic formulas"])

prop("C25","Non-finite values are noticed and stop the run as configured",
 "If a variable that the user asked to be watched becomes infinite or not-a-number at any point of any box at a checked time, the run reports it with variable and location and ends as configured; runs whose data stay finite are never stopped or altered by the check.",
 ["inputs","histories"],"every variable, box, grid point, time step and kind of non-finite value",
 "No test produces a non-finite value.",
 ["src/utility/NumberChecker/NumberChecker.c","src/physics/ADMvars/CheckIfFinite.c"],
 [("finite checks","src/utility/NumberChecker/*.c, src/physics/ADMvars/CheckIfFinite.c")],
 ["exit status and messages of runs where a probe module plants non-finite values"])

prop("C26","Companion tools agree with the data they process",
 "The command line tools shipped with the code report and extract exactly what the files contain: the difference tool lists every pair of differing numbers, in lines that differ, whose relative and absolute differences both exceed the tolerances, counts them, warns of missing or additional lines, columns and files, and its exit code is zero exactly if there are none; the extraction, pruning and modification tools for checkpoints give back exactly the stored values and leave all other parts of the file unchanged and readable by the main program; the 3D to 1D and 2D tools write exactly the requested line or plane for every time in the file.",
 ["inputs"],"every pair of text files, every checkpoint and every 3D output file",
 "The tools are neither built nor tested.",
 ["utilities/floatdiff.c","utilities/prune_checkpoint.c","utilities/extractvar_from_checkpoint.c","utilities/modify_checkpoint.c","utilities/sgrid3d_to_1d.c","utilities/sgrid3d_to_2d.c"],
 [("stand-alone tools","utilities/*.c")],
 ["output of the real tools versus an independent parser; real resumes from tool-processed checkpoints"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
import sys
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
    repo="/repo/"
    for fn in p["anchors"]["files"]:
        if not os.path.exists(repo+fn): print("missing",p["id"],fn)
print(len(P))
