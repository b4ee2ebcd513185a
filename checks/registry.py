CHECKS, INFO = {}, {}
def reg(pid, mod, tech, note, level='proof'):
    CHECKS[pid] = (mod, pid.lower())
    INFO[pid] = (tech, level, note)
AI = 'abstract interpretation of the syntax tree to symbolic value summaries'
reg('C01', 'radial', AI + '; polynomial-exactness identities on the extracted stencils', 'All n>=8, intervals, and grid points, polynomials to the stated degree (identity in the moments of the extracted weights).')
reg('C02', 'radial', AI + '; stencil symbol analysis', 'All n>=9; the Fourier factor of the extracted stencil is factored in sin^2.')
reg('C03', 'radial', AI + ' compared with the node formulas', 'All n, intervals and indices.')
reg('C04', 'radial', AI + ' with a DCT-I model; symbolic sums compared', 'All n>=3 and all data.')
reg('C05', 'radial', AI + '; Chebyshev derivative recurrence summarised and matched', 'All n>=4, intervals and data.')
reg('C06', 'radial', AI + '; monotonicity and bounds of the extracted filter factor', 'All n; factor decided as a function of i/n.')
reg('C08', 'sphere', AI + ' in spherical-harmonic coefficient space', 'All lmax, mmax<=lmax, nlat, nphi and all band-limited fields, both layouts.')
reg('C09', 'sphere', AI + ' in spherical-harmonic coefficient space', 'All lmax, mmax, nlat, nphi and all fields, both layouts.')
reg('C10', 'sphere', AI + ' in spherical-harmonic coefficient space; bounds of the extracted factor', 'All lmax, mmax and coefficients.')
reg('C11', 'sphere', AI + ' in spherical-harmonic coefficient space', 'All lmax, mmax and fields.')
reg('C14', 'grid', AI + '; mixed-radix injectivity of the index maps', 'All grid dimensions, both layouts.')
reg('C15', 'grid', AI + ' of the coordinate tables', 'All grid dimensions, both layouts and radial schemes.')
reg('C16', 'grid', AI + '; gather/scatter summaries compared element-wise', 'All grid dimensions and rows, both layouts.')
reg('C17', 'grid', AI + ' with the 1-d and 2-d operators uninterpreted', 'All grid dimensions, fields and points, both layouts and radial schemes.')
reg('C18', 'grid', AI + '; launcher compactification read from the Python syntax tree', 'All L, radial tables, grid points and fields.')
reg('C19', 'grid', AI + ' with the shell and line filters uninterpreted', 'All grid dimensions and fields.')
reg('C20', 'grid', AI + '; reductions compared with the defining sums', 'All grid dimensions and fields.')
reg('C21', 'eom', AI + ' with the grid operators uninterpreted; compared with the documented equation', 'All masses, spins (zero, extremal, negative), couplings, radii up to infinity, and fields.')
reg('C22', 'eom', AI + ' with the grid operators uninterpreted; compared with the defining formula', 'All masses, spins, couplings, radii up to infinity, and fields.')
reg('C23', 'eom', AI + ' with the time derivative and filter uninterpreted maps', 'All fields, grids and time steps.')
reg('C24', 'idata', AI + '; profile, derivative and max-reduction compared with the documented pulse', 'All pulse parameters (w >= 1e-6), amplitudes, grids, points and direction keywords.')
reg('C25', 'idata', AI + '; element-wise comparison of every member', 'All names, sizes and initial values.')
reg('C28', 'launcher', 'abstract interpretation of the Python syntax tree; effect sequence and file-content reconstruction', 'All configuration flags of the run script, all numeric values (symbolic).')
reg('C29', 'launcher', 'abstract interpretation of the Python syntax tree to value summaries', 'All masses, spins, resolutions; both schemes.')
reg('C32', 'launcher', 'abstract interpretation of build scripts and Makefiles over an abstract object-file state', 'Both variants, every debug/profile option, with and without left-over objects.')
reg('C26', 'params_check', AI + '; key-to-accessor flow through conversions', 'All parameter files (lookup uninterpreted), every accessor.')
reg('C27', 'params_check', 'string value summary of the lookup loop, evaluated against the lookup rule; exit-status rule over all exits', 'Files of up to 3 lines (the loop body is summarised over the first iterations); all exits in the parameter code.', 'other')
reg('C30', 'output', AI + '; stream effects summarised to a document and compared row by row', 'All grids, fields, flags and bounds (row selection compared at graded sample positions).')
reg('C31', 'output', AI + '; induction over the step number with the kernels uninterpreted', 'All run lengths and save intervals.')
reg('C07', 'safety', AI + '; index obligations discharged by integer entailment over symbolic sizes', 'All grid sizes with 8 or more radial points, both radial schemes and layouts.')
reg('C33', 'safety', AI + '; assertion obligations over symbolic sizes, purity of assertions, syntax-tree comparison of the two builds', 'All valid sizes and arguments, both radial schemes and layouts.')
reg('C12', 'safety', AI + '; liveness typestate of allocator results and library handles', 'All sizes with 8 or more radial points; two objects of each owning class; copy and move operations.')
reg('C13', 'safety', AI + '; injectivity of the index maps of worksharing loops, effect summaries of sections, call-graph reachability', 'All thread counts, schedules and grid sizes with 8 or more radial points.')
reg('C34', 'launcher', 'abstract interpretation of the Python syntax tree; effect sequence of copies, builds, mode changes and process starts', 'All configuration flags of the run script, all numeric values (symbolic).')
reg('C35', 'driver', AI + '; induction over the step number with the kernels uninterpreted', 'All parameter values, run lengths and save intervals.')
