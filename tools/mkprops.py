#!/usr/bin/env python3
"""Author's source of properties.jsonl (one dict per property)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=hook)))

# ------------------------------------------------------------------ radial
prop("C01", "Finite-difference derivatives are 6th order exact at every grid point",
 "For every grid of at least 8 points and every interval [lower, upper], the finite-difference first derivative returns, at every grid point including the one-sided boundary points, the exact derivative of any polynomial of degree up to 6, and the second derivative the exact second derivative of any polynomial of degree up to 7 (up to rounding). Every entry of the output is overwritten.",
 ["inputs"], "all grid sizes n>=8, all intervals, all grid points, all polynomial data up to the stated degree",
 "the tests differentiate one smooth function on [0,1] at n=33 and n=65 and compare averaged errors; a wrong boundary weight, a wrong scale for other intervals, or a size-dependent branch is not sampled",
 ["Source/finite_diff.cpp", "Source/finite_diff.hpp"],
 [("six boundary stencils and one centred stencil per operator, divided by the grid spacing", "Source/finite_diff.cpp FD::der, FD::der2")],
 [("_dx", "grid spacing (upper-lower)/(n-1)", "Source/finite_diff.hpp")], ["dv / ddv after FD::der, FD::der2"])
prop("C02", "Finite-difference filter is dissipative, high-order and keeps boundaries",
 "For every grid of at least 9 points the Kreiss-Oliger filter leaves the first four and last four values untouched, computes every other value only from unfiltered values, reproduces polynomials up to degree 7 unchanged, and multiplies every Fourier mode by a real factor in [0,1] (exactly 0 for the grid-scale sawtooth).",
 ["inputs"], "all grid sizes n>=9, all data, all Fourier modes",
 "the test filters one noisy function on one grid and only compares total variations",
 ["Source/finite_diff.cpp"], [("symmetric 9-point stencil into a temporary, then copy back", "Source/finite_diff.cpp FD::filter")],
 [], ["v after FD::filter"])
prop("C03", "Radial grids span exactly [lower, upper] with the advertised points",
 "For every n and interval, the finite-difference grid point i is lower + i*(upper-lower)/(n-1) and the Chebyshev grid point i is the Chebyshev-Lobatto node (upper+lower)/2 + (upper-lower)/2*cos(pi*i/(n-1)), so the end points are grid points (ascending, respectively descending), and the size and interval accessors return what the grid was constructed with.",
 ["inputs"], "all n, all intervals, all point indices",
 "tests only build grids on [0,1]; shifts or scalings that vanish there are invisible",
 ["Source/finite_diff.cpp", "Source/cheb.cpp"], [("pt/n/lower/upper accessors and the constructors' tables", "Source/cheb.cpp Cheb::Cheb, Source/finite_diff.cpp FD::pt")],
 [("_pts", "Chebyshev nodes", "Source/cheb.hpp")], ["pt(i), n(), lower(), upper()"])
prop("C04", "Chebyshev transforms are mutually inverse and normalised",
 "For every grid of at least 3 points, to_po evaluates the Chebyshev series sum_k c_k T_k at the grid's own nodes, and to_ch returns the coefficients of that series for the given point values, so that going to coefficient space and back returns the same values for all data (up to rounding); to_ch does not modify its input.",
 ["inputs"], "all n>=3, all data",
 "one function at n=32 is sampled; a normalisation that is wrong for a particular n or coefficient index is not",
 ["Source/cheb.cpp"], [("DCT-I plan plus endpoint/interior normalisation in both directions", "Source/cheb.cpp Cheb::to_ch, Cheb::to_po")],
 [("_plan_dct", "FFTW REDFT00 plan of size n", "Source/cheb.hpp")], ["ch after to_ch", "po after to_po"])
prop("C05", "Chebyshev derivative is exact for resolved polynomials on any interval",
 "For every grid of at least 4 points and every interval, the Chebyshev derivative of a polynomial of degree at most n-3 equals its exact derivative with respect to the grid coordinate at every grid point (up to rounding); every output entry is overwritten and the input is left unchanged.",
 ["inputs"], "all n>=4, all intervals, all polynomials of degree <= n-3",
 "the test differentiates one function at n=32 on [0,1]; other intervals (Jacobian) and sizes are not reached",
 ["Source/cheb.cpp"], [("coefficient recurrence between to_ch and to_po, division by the interval Jacobian", "Source/cheb.cpp Cheb::der")],
 [("_jacobian", "(upper-lower)/2", "Source/cheb.hpp")], ["dv after Cheb::der"])
prop("C06", "Chebyshev filter is a monotone low-pass filter in coefficient space",
 "For every n the Chebyshev filter multiplies coefficient i by a factor that depends only on i/n, equals 1 for i=0, lies in (0,1], never increases with i, stays within 0.1% of 1 for the lower half of the spectrum and falls below 1e-4 for i/n >= 15/16.",
 ["inputs"], "all n, all data",
 "the test filters one noisy function once and compares total variations",
 ["Source/cheb.cpp"], [("_low_pass table applied between to_ch and to_po", "Source/cheb.cpp Cheb::filter")],
 [("_low_pass", "filter factor per coefficient", "Source/cheb.hpp")], ["v after Cheb::filter"])
prop("C07", "Numerical kernels stay inside their arrays and preserve their inputs",
 "For every grid size that the operator supports (8 or more radial points, at least one angular point) no derivative, filter, transform, gather/scatter or right-hand-side routine reads or writes outside the arrays it is given or owns, and no derivative or forward-transform routine changes the array it differentiates or transforms.",
 ["inputs", "configurations"], "all grid sizes, both radial schemes, both memory layouts",
 "tests use a handful of sizes with nlat close to nphi and no bounds checking; most of these routines are not exercised by the runnable tests at all",
 ["Source/cheb.cpp", "Source/finite_diff.cpp", "Source/grid.hpp", "Source/grid.cpp", "Source/sphere.cpp", "Source/field.cpp", "Source/scalar_eom.cpp", "Source/initial_data.cpp"],
 [("loop bounds and index arithmetic against the sizes the arrays were created with", "all kernels")], [], ["memory accesses"])
# ------------------------------------------------------------------ sphere
prop("C08", "Angular derivatives multiply every resolved harmonic by its eigenvalue",
 "For every field that is band-limited to the resolved harmonics (0<=l<=lmax, 0<=m<=min(l,mmax), both ends included), the spherical Laplacian multiplies the (l,m) coefficient by -l(l+1) and the azimuthal derivative by i*m, and both return the synthesis of exactly those coefficients in every point of the output while leaving the input unchanged.",
 ["inputs"], "all lmax, mmax, all resolved modes (including the highest)",
 "the sphere tests cannot be built without SHTns here, and they only differentiate l<=2 functions far below the truncation",
 ["Source/sphere.cpp"], [("analysis, per-mode multiplication, synthesis", "Source/sphere.cpp Sphere::laplace_beltrami, Sphere::partial_phi")],
 [("_lap", "-l(l+1) table", "Source/sphere.hpp")], ["ddv / dv"])
prop("C09", "Ladder operators and the angular gradient square obey the SO(3) algebra",
 "For every resolved l (including the highest) and every m, raising returns sqrt((l-m+1)(l+m)) times the old coefficient (l,m-1) and lowering sqrt((l+m+1)(l-m)) times the old coefficient (l,m+1), the emptied end (m=-l, respectively m=l) being zero; the angular gradient square is -(L+f)(L-f)+(d_phi f)^2 computed from the same field at every point.",
 ["inputs"], "all l,m, all fields",
 "not buildable here; the tests only raise and lower one l=1 mode",
 ["Source/sphere.cpp"], [("in-place shift of the complex coefficients in the order that never reads an overwritten entry", "Source/sphere.cpp Sphere::raise, Sphere::lower, Sphere::sphereX")],
 [], ["rv, lv, vX"])
prop("C10", "Angular filter damps every resolved harmonic monotonically",
 "The spherical filter multiplies the coefficient of every resolved harmonic (l,m), highest l and m included, by a factor in (0,1] that is 1 at l=m=0, never increases with l or m, stays within 0.2% of 1 for l and m in the lower half of the spectrum, is below 1e-4 whenever l or m is at least 15/16 of lmax, and is below 1e-15 for l=lmax; all output points are the synthesis of exactly those coefficients.",
 ["inputs"], "all lmax, mmax, all resolved modes", "not buildable here; the test filters one smooth noisy function",
 ["Source/sphere.cpp"], [("_low_pass table between analysis and synthesis", "Source/sphere.cpp Sphere::filter")],
 [("_low_pass", "filter factor per degree", "Source/sphere.hpp")], ["v after Sphere::filter"])
prop("C11", "Angular power spectrum counts every resolved order exactly once per sign",
 "For every real field and every reported degree l, the angular power is |f_{l,0}|^2 plus twice the sum over all resolved orders 1<=m<=min(l,mmax) of |f_{l,m}|^2; a requested harmonic Y_{l,m} is the synthesis of a coefficient vector that is 1 at (l,m) and 0 elsewhere.",
 ["inputs"], "all fields, all l, all mmax", "no test computes a power spectrum",
 ["Source/sphere.cpp"], [("double loop over l and m with factor two for m>0", "Source/sphere.cpp Sphere::power_spectrum, Sphere::compute_ylm")], [], ["p", "compute_ylm result"])
prop("C12", "Library resources are released exactly once and never shared by copies",
 "Every scratch buffer obtained from the FFT allocator is released exactly once, with the matching deallocator and not used afterwards, on every path through every routine; every transform plan and spherical-harmonic configuration is destroyed exactly once when its owner dies, no owner can be copied into a second owner of the same handle, and destroying one object never invalidates the plans of another.",
 ["histories", "inputs"], "all call sequences, copies and destruction orders", "tests create one object at a time and never copy one; leaks and double releases do not change results",
 ["Source/sphere.cpp", "Source/sphere.hpp", "Source/cheb.cpp", "Source/cheb.hpp", "Source/grid.hpp"],
 [("allocate_*/free pairs, constructors and destructors", "Source/sphere.cpp, Source/cheb.cpp")], [("_plan_dct", "FFTW plan", "Source/cheb.hpp"), ("_shtns", "SHTns configuration", "Source/sphere.hpp")], ["allocator calls"])
prop("C13", "Parallel regions are free of data races",
 "In every OpenMP parallel loop no iteration writes an element or variable that another iteration reads or writes (apart from declared reductions), concurrently running parallel sections write disjoint data that no other section reads, and every routine reachable from a parallel region keeps no mutable shared state and calls no thread-unsafe library entry point.",
 ["schedules"], "all thread counts and schedules", "races need particular schedules; the tests run tiny grids and never compare schedules",
 ["Source/grid.cpp", "Source/field.cpp", "Source/scalar_eom.cpp", "Source/sphere.cpp", "Source/cheb.cpp", "Source/finite_diff.cpp"],
 [("per-iteration private row buffers, disjoint member arrays per section, const operators", "all #pragma omp regions")], [], ["shared memory accesses"])
# ------------------------------------------------------------------ grid
prop("C14", "Grid index maps are bijective and agree across components",
 "In both memory layouts, the 3-d index of (ix,it,ip), the angular index of (it,ip) and the 2-d radial-angular and radial-degree indices map the grid points one-to-one onto 0..size-1, with the 3-d index equal to ix times the number of angular points plus the angular index, and the angular index equal to the one used by the spherical transform.",
 ["inputs", "configurations"], "all grid sizes, both layouts", "tests only use the layout macro on and nlat==nphi grids in some tests; a swapped stride is invisible there",
 ["Source/grid.hpp", "Source/sphere.hpp"], [("indx_* functions", "Source/grid.hpp, Source/sphere.hpp")], [], ["index values"])
prop("C15", "Coordinate tables give the coordinates of the point they are indexed by",
 "For every grid point, the coordinate tables of the grid return (R,theta,phi), (theta,phi), (R,l), (n,l) and the Cartesian (R sin th cos ph, R sin th sin ph, R cos th) of exactly that point, with R from the radial grid, theta=acos of the Gauss node and phi=2*pi*ip/nphi, whether addressed by multi-index or by flat index.",
 ["inputs", "configurations"], "all grid sizes and points, both layouts and radial schemes", "not built here; a transposed table entry on a non-square grid is not sampled",
 ["Source/grid.cpp", "Source/grid.hpp", "Source/sphere.cpp"], [("constructor loops and table accessors", "Source/grid.cpp Grid::Grid")], [("_R_th_ph,_x_y_z,_th_ph,_R_l,_n_l", "coordinate tables", "Source/grid.hpp")], ["table accessors"])
prop("C16", "Row gather/scatter routines move complete rows to the matching points",
 "For every row and slice accessor of the grid, the get routine copies exactly the elements of the addressed line, shell or slice in order, the set routine writes exactly those elements and nothing else, and a get after a set of the same row returns what was set, for every (possibly different) number of radial, polar and azimuthal points.",
 ["inputs", "configurations"], "all sizes (nlat != nphi included), both layouts", "no test calls most of these routines; those used run on square angular grids",
 ["Source/grid.hpp"], [("get_row_*/set_row_* loops", "Source/grid.hpp")], [], ["destination arrays"])
prop("C17", "Grid operators apply the line or shell operator to every line or shell",
 "For every field, each 3-d operator (azimuthal derivative, spherical Laplacian, angular gradient square, radial derivatives, angular power spectrum, radial-spectral coefficients) equals the corresponding 1-d or 2-d operator applied to each radial line or each spherical shell of the input, and writes every element of the output from the matching line or shell.",
 ["inputs", "configurations"], "all fields, sizes, layouts and both radial schemes", "not built here; the tests compare convergence of averaged errors only",
 ["Source/grid.cpp"], [("gather, apply, scatter per line/shell", "Source/grid.cpp set_*")], [], ["dv, ddv, vX, p"])
prop("C18", "Compactified radius and its derivatives obey the chain rule consistently",
 "The solver's map from compactified to physical radius is the inverse of the launcher's compactification R=r/(1+r/L) away from infinity, the derivative with respect to physical r is (1-R/L)^2 d/dR, and the second derivative is (1-R/L)^4 d2/dR2 - (2/L)(1-R/L)^3 d/dR, at every grid point and for every L; at R=L the radius is reported as a huge finite number.",
 ["inputs"], "all L, all radii, both radial schemes", "not built here; C++ and Python sides are never compared",
 ["Source/grid.hpp", "Source/grid.cpp", "sim_class.py"], [("R_to_r, _dR_over_dr, _d2R_over_dr2, set_partial_r, set_partial2_r", "Source/grid.*"), ("compactification", "sim_class.py")], [], ["R_to_r, set_partial_r, set_partial2_r"])
prop("C19", "Grid filter filters every shell and every radial line, keeping radial end values",
 "Filtering a 3-d field first applies the spherical filter to every shell and then the radial filter to every radial line, except that the first and last point of each line keep their spherically filtered values; every grid point is updated accordingly.",
 ["inputs", "configurations"], "all fields and sizes, both radial schemes", "not built here; the tests check only that total variation decreases",
 ["Source/grid.cpp"], [("two passes, shell then line", "Source/grid.cpp Grid::filter")], [], ["v after Grid::filter"])
prop("C20", "Evolution diagnostics compute the stated norms over the whole grid",
 "The independent residual is the root mean square over all grid points of p-(f_{n+1}-f_n)/dt, and the total variation is the sum over all interior cells of the Euclidean norm of the three forward differences of that cell divided by the number of points, for every field and layout.",
 ["inputs", "configurations"], "all fields, sizes, layouts", "no test calls them",
 ["Source/grid.cpp"], [("OpenMP reductions", "Source/grid.cpp Grid::norm_indep_res, Grid::total_variation")], [], ["return values"])
# ------------------------------------------------------------------ eom
prop("C21", "Time derivatives are those of the documented Kerr scalar equation",
 "At every grid point, for every mass, spin (including zero and extremal), coupling and field value, the computed time derivative of the field is its momentum and that of the momentum equals the solution for d2psi/dv2 of Box psi + (k'/2k)(grad psi)^2 - V'/k = 0 in ingoing Kerr coordinates with k = k0 + km1/(psi+1) + k1 psi + k2 psi^2/2 and V = V2 psi^2/2 + V3 psi^3/6 + V4 psi^4/24, each derivative being taken of the right field; at infinity all coefficients take their finite limits.",
 ["inputs"], "all points, parameters and fields", "the module is not built or tested at all",
 ["Source/scalar_eom.cpp", "Documentation/main.tex"], [("coefficient tables in the constructor and the pointwise combination", "Source/scalar_eom.cpp Scalar_eom::Scalar_eom, Scalar_eom::set_k")], [("_p_*", "coefficient tables", "Source/scalar_eom.hpp")], ["f_k, p_k"])
prop("C22", "Reported energy density is n^mu n^nu T_mu_nu of the evolved field",
 "At every grid point the reported density equals n^mu n^nu T_mu_nu = (k/2)[(1+2Mr/S) p^2 - (4Mr/S) p d_r psi + ((r^2+2Mr+a^2)/S - 4Mr/(2Mr+S)) (d_r psi)^2 + (2a/S) d_r psi d_phi psi + (1/S)|angular gradient|^2] + V (S = r^2+a^2 cos^2 theta), with the same k, V, mass and spin as the evolution equation.",
 ["inputs"], "all points, parameters and fields", "no test; the output is only looked at",
 ["Source/scalar_eom.cpp", "Documentation/main.tex"], [("_rho_* tables and set_rho", "Source/scalar_eom.cpp")], [("_rho_*", "coefficient tables", "Source/scalar_eom.hpp")], ["rho"])
prop("C23", "Time stepping is the classical fourth-order Runge-Kutta method",
 "One time step filters the current field and momentum and then sets the new level to n + dt/6 (K1+2K2+2K3+K4) with K1..K4 the right-hand sides evaluated at n, n+dt/2 K1, n+dt/2 K2, n+dt K3, for both fields simultaneously at every grid point, leaving the current level otherwise unchanged.",
 ["inputs", "histories"], "all fields and dt", "no test",
 ["Source/scalar_eom.cpp"], [("set_level stages and time_step sequence", "Source/scalar_eom.cpp Scalar_eom::set_level, time_step")], [], ["f.np1, p.np1"])
prop("C24", "Initial pulse is compact, normalised and consistent with its direction",
 "The initial field is zero outside rl<r<ru and proportional to x^4 y^4 exp(-1/x) exp(-2/y) Y_lm inside (x=(r-rl)/w, y=(ru-r)/w, w=|ru-rl|) at every grid point where that profile is nonzero - horizon included, in both radial schemes - rescaled so that its largest absolute value is amp; the initial momentum is +d_r, -d_r of that same field or 0 for ingoing, outgoing and time-symmetric (or unrecognised) directions.",
 ["inputs", "configurations"], "all parameters, sizes and both radial schemes", "no test",
 ["Source/initial_data.cpp"], [("profile, analytic derivative, rescaling", "Source/initial_data.cpp ID::compact_pulse")], [], ["f, p"])
prop("C25", "Field storage starts filled at every level and shifts only the new level",
 "A new field has the requested name and size with every level filled with the initial value, and shifting copies the new level onto the current level at every point and changes nothing else.",
 ["inputs", "histories"], "all sizes and contents", "field storage has no test",
 ["Source/field.cpp", "Source/field.hpp"], [("constructor and shift", "Source/field.cpp")], [], ["n, l, np1, k"])
# ------------------------------------------------------------------ params / io / driver
prop("C26", "Every runtime parameter reaches the solver under its own name and type",
 "For every parameter file, each parameter accessor returns the value that the file gives for the key documented for it (compactification_length for the compactification scale, black_hole_mass, black_hole_spin, initial_data_type for the initial-data kind, and otherwise the accessor's own name), converted as an integer for counts and in full double precision for reals.",
 ["inputs"], "all parameter files", "no test reads a parameter file",
 ["Source/params.cpp", "Source/params.hpp"], [("constructor assignments and inline getters", "Source/params.*")], [], ["getters"])
prop("C27", "Parameter lookup is exact and fails loudly",
 "Looking up a parameter returns the first value token of the first line whose leading blank-delimited word is exactly the requested key, wherever the line is in the file; if the file cannot be read or has no such line the process ends with a failure status and never continues with a default or leftover value.",
 ["inputs"], "all parameter files", "no test reads a parameter file",
 ["Source/params.cpp"], [("_read / _read_array line loop and error exit", "Source/params.cpp")], [], ["returned value, exit status"])
prop("C28", "The launcher writes every parameter the solver reads, in the solver's format",
 "For every run configuration the launcher writes, before it starts the solver or submits the job, one line '<key> <value>' for each key the solver reads, with values in the form the solver parses, to the same file whose name it passes to the solver together with the output directory.",
 ["configurations"], "all run configurations", "the scripts are only parsed, never run",
 ["sim_class.py", "runscript_template.py", "Source/params.cpp", "Source/main.cpp"], [("write_sim_params, launch_run, write_slurm_script", "sim_class.py")], [], ["params.txt, run command"])
prop("C29", "The launcher derives horizon, domain, pulse and time-step parameters correctly",
 "For every mass, spin and resolution the launcher sets the inner boundary to the compactified outer horizon M+sqrt(M^2-a^2), the outer boundary to the compactification length, the pulse bounds to the given multiples of the horizon, dt to 6/max(nx,nlat,nphi)^2 (Chebyshev) or min(6/max(nlat,nphi)^2, cfl/(nx-1)) (finite differences), the step count to int(evolve_time*M/dt), and a save interval that is int(nt/num_saved_times) but never below 1.",
 ["configurations"], "all run configurations", "the scripts are only parsed, never run",
 ["sim_class.py"], [("set_derived_params", "sim_class.py")], [], ["attributes written to params.txt"])
prop("C30", "CSV output pairs each value with the coordinates of its own grid point",
 "Each output file is named <name>_<kind>_<index>.csv, starts (when coordinates are requested) with a header that has as many columns as the data rows, and has one row per element in index order, holding the coordinates of that element and its value (for spectra the base-10 logarithm floored at -16, for point data only values and radii strictly within the requested bounds).",
 ["inputs"], "all fields, grids and flags", "no test writes a file",
 ["Source/io.cpp"], [("write_R_psl, write_n_psl, write_x_y_z, write", "Source/io.cpp")], [], ["file contents"])
prop("C31", "Driver saves consistent snapshots and steps from the latest level",
 "In every run each time step starts from the level produced by the previous step, snapshot number s is written at step s*t_step_save (snapshot 0 being the initial data), field and energy-density files of one snapshot carry the same number and are both computed from the newly computed level, and the density written is always the one just computed for that level.",
 ["histories", "configurations"], "all run lengths and save intervals", "the driver is never built or run",
 ["Source/main.cpp"], [("main loop", "Source/main.cpp main")], [], ["output files"])
prop("C32", "Each executable is built with the radial scheme its name promises",
 "Building both variants with the configuration script, or recompiling from the launcher, always yields a Chebyshev executable compiled entirely with the Chebyshev option and a finite-difference executable compiled entirely without it, whatever was built before in the same tree.",
 ["configurations", "histories"], "all build sequences", "the build scripts are not run by the tests",
 ["config.py", "sim_class.py", "Makefile", "Source/Makefile"], [("make invocations and their flags, cleaning of objects between variants", "config.py, sim_class.py then_recompile")], [], ["make commands issued"])
prop("C33", "Debug assertions are pure and hold for all valid arguments",
 "Compiling with or without assertions changes no computed value, and for every call whose arrays have the documented sizes no assertion of the numerical kernels fails.",
 ["inputs", "configurations"], "all valid calls, assertions on and off", "the tests run with assertions on and call few routines; the simulation is built with them off",
 ["Source/cheb.cpp", "Source/finite_diff.cpp", "Source/grid.hpp", "Source/grid.cpp", "Source/sphere.cpp", "Source/scalar_eom.cpp"], [("assert() statements", "all kernels")], [], ["assertion conditions"])
# ------------------------------------------------------------------ not decidable statically
prop("C40", "Evolutions are stable and converge at the design order",
 "For every admissible configuration the evolved field stays bounded over the run and converges to the continuum solution at sixth order (finite differences) or spectrally (Chebyshev) in space and fourth order in time.",
 ["inputs", "configurations"], "all runs", "would need runs at many resolutions; the solver is not even built",
 ["Source/scalar_eom.cpp", "Source/grid.cpp"], [("RK4 with filtering and CFL-limited dt", "Source/scalar_eom.cpp, sim_class.py")], [], ["output files"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
