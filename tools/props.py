"""writes properties.jsonl"""
import json, os
P = []
S = 'code/cpp/src/'


def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


NUM = ('The existing tests only set problems up and compare one linear solve; no value that the '
       'numerical code computes here is looked at, and this ranges over ')

p('P01', 'Ghost layers realise the requested boundary conditions',
  'Extending a 1D or 2D grid leaves the interior cells as they are and fills every ghost layer on '
  'every side with what that side\'s boundary type prescribes: the edge cell (transmissive), the '
  'opposite cells (periodic), or the mirror-image cells with the normal momentum (slip, symmetric), '
  'the whole momentum (no-slip), or the whole momentum plus twice the unit wall velocity along x with the energy '
  'changed by exactly the kinetic energy difference (moving wall) reversed. All other quantities of a '
  'mirrored cell are copied, except that a symmetry boundary also reflects the distortion tensor and the thermal impulse, and in '
  '2D the boundary types of the y sides are applied to the ghost layers of the x sides too.',
  ['inputs', 'configurations'],
  'Every pair of boundary types in 1D and every quadruple in 2D, every small grid shape, every cell and layer.',
  NUM + 'all combinations of types, sides, layers and shapes.',
  [S + 'etc/grid.cpp'], [('index mapping and sign flips of each type', 'boundaries1, boundaries2')],
  ['GPRpy.boundaries'])
p('P02', 'The predictor mask covers exactly what a masked update needs',
  'For any set of cells selected for update, the extended mask selects every such cell, every face '
  'neighbour of such a cell, and every ghost cell that shares a face with such a cell. It selects no cell '
  'of the domain beyond those, and in 2D no corner ghost cell.',
  ['inputs'], 'Every subset of the cells of every small 1D and 2D grid.',
  NUM + 'all subsets of cells.', [S + 'etc/grid.cpp'], [('mask dilation', 'extend_mask')],
  ['GPRpy.extend_mask', 'time steppers'])
p('P03', 'WENO reconstruction is conservative, exact and non-oscillatory',
  'The reconstruction of every cell, including the ghost ring, is finite, has exactly the given cell '
  'average in every variable, reproduces polynomial data of degree below the order exactly, treats the '
  'variables independently, commutes with mirroring the data, and stays within a few percent of the range '
  'of neighbouring averages next to an isolated jump. Data that vary along one axis only are '
  'reconstructed in 2D as in 1D, and the reconstruction of cells that are used does not depend on the corner ghost cells.',
  ['inputs', 'configurations'], 'All stencils of averages over a small alphabet, all orders 2 to 5, 1D and 2D grids.',
  NUM + 'all stencil contents and orders.',
  [S + 'solvers/weno/weno.cpp', S + 'solvers/weno/weno_matrices.cpp'],
  [('stencil matrices and nonlinear weights', 'coefficient_matrices, oscillation_indicator, coeffs, weight')],
  ['GPRpy.solvers.weno.weno_launcher'])
p('P04', 'Quadrature, basis and Galerkin operators are exact',
  'For every order, the nodes and weights are those of Gauss-Legendre quadrature on the unit interval, '
  'the basis polynomials are the Lagrange polynomials of these nodes, and the end value, derivative, WENO '
  'and space-time Galerkin operators built from them satisfy their defining integrals for every polynomial they can represent. '
  'Polynomial arithmetic (sum, product, scaling, differentiation, integration, evaluation) agrees with exact arithmetic.',
  ['inputs', 'configurations'], 'All orders 1 to 6, all basis functions and monomials, all short sequences of polynomial operations.',
  NUM + 'all orders; the tests run a single one.',
  [S + 'solvers/poly/basis.cpp', S + 'scipy/legendre.cpp', S + 'scipy/poly.cpp', S + 'solvers/dg/dg_matrices.cpp', S + 'solvers/poly/evaluations.cpp', S + 'etc/globals.cpp'],
  [('Legendre roots by eigenvalues', 'leggauss'), ('operators from exact polynomial integrals', 'DG1, DG_mat, derivative_values, end_values')],
  ['GPRpy.solvers.common', 'matrices used by the solvers'])
p('P05', 'Equations of state are thermodynamically consistent and invertible',
  'For every equation of state, computing the pressure of a conserved state returns the pressure it was '
  'built with, conversions between conserved and primitive vectors in either ordering are inverse to each '
  'other, and the derivative functions are the derivatives of the value functions. Along the reference '
  'curve the energy derivative is the pressure over the density squared, and the sound speed is real and equals the isentropic derivative of the pressure.',
  ['inputs', 'configurations'], 'All five equations of state, densities on both sides of the reference density, pressures, strains, velocities, with and without heat conduction and mixtures.',
  NUM + 'all materials and states; the tests build initial data in Python only.',
  [S + 'system/energy/mg.cpp', S + 'system/energy/eos.cpp', S + 'system/energy/derivatives.cpp', S + 'system/energy/multi.cpp', S + 'system/functions/vectors.cpp', S + 'system/waves/shear.cpp', S + 'system/waves/speeds.cpp', S + 'system/variables/state.cpp'],
  [('Mie-Gruneisen closed forms', 'p_ref, e_ref, temperature_mg, dedρ, ...'), ('energy decomposition', 'total_energy, internal_energy')],
  ['GPRpy.system.variables.pressure, temperature, dEdρ', 'initial data', 'every flux'])
p('P06', 'The system matrix is the Jacobian of the flux plus the advective block',
  'For every state, direction and material, the system matrix equals the derivative of the flux by the '
  'conserved variables plus the non-conservative block, the two Jacobian factors are the derivatives of '
  'the flux by, and of, the primitive variables, and the directional non-conservative product equals the block times the vector. '
  'The flux itself is the physical one: mass, momentum with pressure and stress, energy with work and heat, and transport of distortion, thermal impulse and mass fraction.',
  ['inputs', 'configurations'], 'All equations of state, all three directions, all sign patterns of velocity, sheared and rotated distortions, each component of each vector; with and without heat conduction and mixtures.',
  NUM + 'all states, directions and components.',
  [S + 'system/equations.cpp', S + 'system/jacobians.cpp', S + 'system/variables/state.cpp'],
  [('flux, block and products', 'flux, block, B0dot, B1dot, B2dot'), ('hand-derived Jacobians', 'dFdP, dPdQ')],
  ['GPRpy.system.flux, system_matrix, Bdot, dFdP, dPdQ', 'Roe and Osher fluxes'])
p('P07', 'Wave speed estimate bounds the spectrum and the time step respects it',
  'For every state and direction, the wave speed estimate equals the largest absolute eigenvalue of the '
  'system in that direction. The time step is the Courant number over the largest sum of wave speeds over cell sizes '
  'over all masked cells of all materials that are not vacuum, a fifth of it in the first six steps, and never passes the final time.',
  ['inputs', 'configurations'], 'All equations of state, directions, signs of velocity; all masks and all placements of the fastest cell on small multi-material grids; all step counts around the start.',
  NUM + 'all states and all cells, materials and masks.',
  [S + 'system/eig.cpp', S + 'solvers/iterator.cpp', S + 'system/waves/speeds.cpp'],
  [('thermo-acoustic tensor', 'Xi1, Xi2, max_abs_eigs'), ('step selection', 'timestep')],
  ['GPRpy.system.max_abs_eigs', 'GPRpy.solvers.timestep'])
p('P08', 'Numerical fluxes are consistent, upwind-biased and mirror symmetric',
  'For Rusanov, Roe and Osher fluxes alike, equal states on both sides give twice the physical flux, '
  'reflecting the two states about any axis and swapping them reflects the flux, permuting the axes permutes it, '
  'and the dissipation is the absolute value of the (averaged) system matrix, or the larger wave speed for Rusanov, times the jump. The jump term of the non-conservative '
  'part is linear in the direction of the jump, antisymmetric under swapping the states, and exact where the velocity is uniform.',
  ['inputs', 'configurations'], 'All flux types, directions and pairs of states from an alphabet that contains jumps in every variable, for every equation of state.',
  NUM + 'all pairs of states; the tests of the fluxes that the project has do not run.',
  [S + 'solvers/fv/fluxes.cpp'], [('flux functions', 'D_RUS, D_ROE, D_OSH, Bint')],
  ['GPRpy.solvers.fv.*'])
p('P09', 'Periodic evolution conserves mass, momentum and energy',
  'With periodic boundaries and no sources, the total mass, momentum, energy (and reactant mass if there is no reaction) over the domain '
  'are unchanged by every time step of either stepper, for every sequence of steps (in 2D where the corner ghost cells take part in the reconstruction, NO_CORNERS off, or the data near the edges do not vary along them). With a body force the total momentum changes by exactly the impulse of the force.',
  ['histories', 'inputs', 'configurations'], 'All sequences of up to a few steps over alphabets of step size and flux type, from small 1D and 2D initial data with jumps; both steppers, stiff and non-stiff.',
  NUM + 'all step histories; no test ever takes a time step.',
  [S + 'solvers/fv/fv.cpp', S + 'solvers/steppers.cpp', S + 'solvers/split/homogeneous.cpp'],
  [('same interface flux added to both sides', 'interfs1, interfs2'), ('cell-centred terms', 'centers1, centers2')],
  ['GPRpy.solvers.ader_stepper, split_stepper'])
p('P10', 'Evolution is equivariant under reflection, axis exchange and translation',
  'Reflecting the initial data along an axis (the distortion as a tensor), translating periodic data, or extending 1D data '
  'uniformly in a second dimension along either axis, and then evolving, gives the same result as evolving first and transforming afterwards, up to rounding. '
  'In 2D this holds where the corner ghost cells take part in the reconstruction (NO_CORNERS off) or the data near the edges do not vary along them.',
  ['histories', 'inputs', 'configurations'], 'All step sequences to a bounded depth, all transformations, both steppers, all flux types, 1D and 2D.',
  NUM + 'all transformations of all histories.',
  [S + 'solvers/fv/fv.cpp', S + 'solvers/steppers.cpp', S + 'solvers/dg/dg1.cpp', S + 'solvers/dg/dg2.cpp', S + 'solvers/split/homogeneous.cpp', S + 'solvers/weno/weno.cpp', S + 'etc/grid.cpp'],
  [('per-direction loops', 'interfs2, centers2, rhs2, midstepper')],
  ['GPRpy.solvers.ader_stepper, split_stepper'])
p('P11', 'A uniform state at rest in equilibrium or in uniform motion stays uniform',
  'A spatially uniform state in mechanical and thermal equilibrium is left unchanged by every step of every stepper in 1D and 2D, '
  'at rest with any boundary type that admits it and in motion with periodic or transmissive boundaries, for every material.',
  ['histories', 'inputs', 'configurations'], 'All step sequences to a bounded depth over steppers and flux types, all materials and directions of motion, all boundary types.',
  NUM + 'all step histories.', [S + 'solvers/fv/fv.cpp', S + 'solvers/steppers.cpp', S + 'solvers/weno/weno.cpp', S + 'solvers/dg/dg.cpp'],
  [('cancellation of fluxes', 'interfs1, interfs2'), ('exact reconstruction of constants', 'coeffs')],
  ['GPRpy.solvers.ader_stepper, split_stepper'])
p('P12', 'Parallel steppers equal the serial ones for every team and schedule',
  'For every number of threads (also more threads than rows) and every order in which they run, the parallel steppers give the same grid as the '
  'serial steppers, and no two threads of a parallel region access the same memory without ordering where one of them writes.',
  ['schedules', 'configurations', 'inputs'], 'All team sizes up to one more than the rows, all orders of the threads of small teams, all preemptions at conflicting accesses; 1D and 2D; both steppers and all masks.',
  'The tests run with OMP_NUM_THREADS=1 and never take a step; a race shows only for particular interleavings.',
  [S + 'solvers/steppers.cpp', S + 'solvers/weno/weno.cpp', S + 'multi/fill.cpp'],
  [('strips of rows per thread with shared halos', 'ader_stepper_para, split_stepper_para'), ('strip-aware reconstruction', 'weno_strip')],
  ['GPRpy.solvers.ader_stepper_para, split_stepper_para', 'iterator'])
p('P13', 'Space-time predictors solve their equations in every requested cell',
  'In every masked cell the Galerkin predictor returns a solution of the weak space-time form of the system '
  'that starts from the reconstruction, the Newton and the fixed-point variant agree, and masked cells never receive '
  'values from memory that was not written or from other cells. The half-step predictor of the split scheme advances every masked cell by half the step with the '
  'derivatives of its own reconstruction, and cells that are not masked are left alone.',
  ['inputs', 'configurations', 'histories'], 'All masks of small grids, all combinations of cell data, with and without source terms, converging and not converging iterations, 1D and 2D, orders 2 and 3.',
  NUM + 'all masks and convergence histories.',
  [S + 'solvers/dg/dg1.cpp', S + 'solvers/dg/dg2.cpp', S + 'solvers/dg/dg.cpp', S + 'solvers/dg/initial_guess.cpp', S + 'solvers/split/homogeneous.cpp'],
  [('fixed-point iteration with Newton fallback', 'predictor1, predictor2'), ('weak form', 'rhs1, rhs2'), ('half step', 'midstepper')],
  ['time steppers', 'GPRpy.solvers.split.midstepper'])
p('P14', 'A masked update changes exactly the masked cells, as the full update would',
  'When only some of the cells are selected for update, every selected cell takes the value that it would take if all cells were '
  'updated, and the fluid equations leave every cell untouched that is neither selected nor shares a face with a selected one (a neighbour of a selected cell may be changed, as it belongs to another material). This holds for the flux update alone and within complete steps of both steppers, in 1D and 2D.',
  ['inputs', 'histories', 'configurations'], 'Every mask of every small grid, all flux types, with and without the time dimension and source terms.',
  NUM + 'all masks.', [S + 'solvers/fv/fv.cpp', S + 'solvers/steppers.cpp', S + 'etc/grid.cpp'],
  [('masked loops', 'interfs1, interfs2, centers1, centers2, extend_mask')],
  ['GPRpy.solvers.fv.fv_launcher', 'GPRpy.solvers.ader_stepper, split_stepper'])
p('P15', 'Interface cells and material regions are found exactly',
  'For every level set, a cell is marked as inner (outer) interface cell exactly if it lies inside (outside) and shares a face with a cell on the other side whose inner cell is not isolated; '
  'isolated inner cells are marked as such, all others not at all. With several nested level sets, the indicator of each material is not positive exactly in the cells that the material occupies (a cell exactly on an interface belongs to one material), '
  'and the material index of a cell is the number of level sets that are not negative there.',
  ['inputs'], 'Every sign pattern of every small 1D and 2D grid, with zeros, and every nested arrangement of up to three materials.',
  NUM + 'all sign patterns.', [S + 'multi/fill.cpp', S + 'multi/functions.cpp', S + 'system/functions/vectors.cpp'],
  [('sign change scan', 'find_interface_cells, update_interface_mask'), ('max of level sets', 'material_indicator'), ('count', 'get_material_index')],
  ['GPRpy.multi.*'])
p('P16', 'Fast marching returns the signed distance, whatever the shape',
  'The distance function keeps the sign of the level set in every cell, reproduces a planar interface exactly and keeps a signed distance to it unchanged, '
  'is symmetric under reflection and axis exchange, satisfies the upwind distance equation in every cell that is not next to the interface, and never decreases away from the interface. '
  'A level set without an interface is returned as it is, and the central differences of the level set are exact for linear data.',
  ['inputs'], 'Every sign pattern of every small grid with several magnitudes, all spacings, 1D and 2D.',
  NUM + 'all level sets.',
  ['code/cpp/include/skfmm/base_marcher.cpp', 'code/cpp/include/skfmm/distance_marcher.cpp', S + 'multi/pfmm.cpp', S + 'multi/functions.cpp'],
  [('narrow band and heap driven marching', 'baseMarcher, distanceMarcher')],
  ['GPRpy.system.multi.distance', 'GPRpy.multi.renormalize_levelsets, finite_difference'])
p('P17', 'The priority queue of the marcher is a priority queue for every history',
  'After every sequence of insertions, value changes and removals, the queue is empty exactly if every inserted element was removed, and every removal '
  'returns an element with the smallest current value together with that value and its identity.',
  ['histories'], 'Every sequence of operations up to a bounded depth over a small alphabet of values, with ties.',
  'No test calls the marcher; the order of operations it makes for a given picture is a tiny part of what it must support.',
  ['code/cpp/include/skfmm/heap.cpp'], [('binary heap with back pointers', 'heap::push, pop, set')], ['fast marching'])
p('P18', 'Ghost-fluid filling keeps owned cells and fills the rest from the interface',
  'Filling the ghost cells of a material leaves its own cells and all level sets unaltered except for renormalization, gives finite values to the cells of a band around the '
  'interface, selects for update exactly its own cells that are not isolated and the first row of ghost cells, and reads and writes nothing outside the grid. '
  'Each first-row ghost cell holds the interface state between the material on its side of the interface and the cell one spacing beyond it along the normal, which is the state of the material itself '
  'where both sides are in equilibrium; cells further out repeat a ghost state next to them. The result does not depend on the schedule of threads.',
  ['inputs', 'schedules'], 'Every arrangement of two or three materials (or vacuum) on small 1D and 2D grids, interfaces at all positions up to the domain edge, all thread orders.',
  NUM + 'all arrangements and schedules.', [S + 'multi/fill.cpp', S + 'multi/functions.cpp'],
  [('star states then extrapolation', 'fill_boundary_cells, fill_neighbor_cells, fill_ghost_cells')],
  ['GPRpy.multi.fill_ghost_cells', 'iterator'])
p('P19', 'Combining material grids picks the owner of every cell',
  'After all materials are updated, every level set of a cell is the mean over the materials that updated the cell, or its previous value if none did; the fluid state of the cell is '
  'that of the grid of the material which the new level sets designate, and zero if that is vacuum. Concentrations are limited to lie between zero and the density.',
  ['inputs'], 'Every assignment of masks, level-set signs and materials (with vacuum) on small grids.',
  NUM + 'all assignments.', [S + 'solvers/iterator.cpp'], [('selection', 'make_u'), ('limiter', 'limit_concentration')],
  ['GPRpy.solvers.make_u', 'iterator'])
p('P20', 'Split relaxation solves the strain and heat-flux equations',
  'Starting from any strain, the analytic relaxation of the distortion follows the relaxation equation: the rate of its mean squared stretch is exact at the start, and the error over a whole step vanishes with the strain. For zero time, for elastic solids and below the yield stress it is the identity. '
  'Up to moderate strains (logarithmic stretches up to 0.6; equal stretches may split slightly) it keeps the determinant and the principal axes, lets the principal stretches approach each other without overtaking, reduces the shear stress monotonically in time, and is independent of rotations of space and of the reference frame; it is finite for all strains. '
  'Relaxation of the thermal impulse follows its equation exactly at the strain after the step, body forces add their impulse to the momentum, nothing else changes, and every cell relaxes by itself.',
  ['inputs', 'histories', 'configurations'], 'All principal stretches from an alphabet (equal, nearly equal, distinct, extreme), all rotations, all material laws, step sizes over many decades, and sequences of steps.',
  NUM + 'all strains, laws and step sizes.', [S + 'system/relaxation/analytic.cpp', S + 'solvers/split/ode.cpp'],
  [('closed form in the principal stretches', 'analyticSolver_distortion, nondimensionalized_time, analyticSolver_thermal')],
  ['GPRpy.solvers.split.analyticSolver_*', 'GPRpy.solvers.split.ode_launcher'])
p('P21', 'Reaction progress follows the rate law and stays in bounds',
  'The reaction rate is the rate law of the material (discrete, Arrhenius, ignition and growth) in every branch, never negative, and zero without reactant. Integrating it never makes the mass fraction negative or larger, changes nothing else, '
  'and converges to the solution of the rate equation; the scalar integrators solve every smooth scalar equation to their order, and a stiff one to its tolerance.',
  ['inputs', 'histories', 'configurations'], 'All rate laws, all branches of their thresholds, fractions from 0 to 1, step sizes and sequences of steps.',
  NUM + 'all rate laws and step sizes.', [S + 'system/variables/sources.cpp', S + 'system/relaxation/numerical.cpp', S + 'solvers/split/rk.cpp', S + 'solvers/split/numeric.cpp'],
  [('rate laws', 'reaction_rate'), ('Runge-Kutta with refinement', 'runge_kutta_launcher'), ('Galerkin scalar solver', 'stiff_ode_solve')],
  ['GPRpy.system.reaction_rate', 'GPRpy.solvers.split.*'])
p('P22', 'The linear solver solves every solvable system, independently of history',
  'For every nonsingular system, right-hand side, starting vector and preconditioner the linear solver returns a vector whose residual meets the tolerance when the iteration limit allows, returns the starting vector if that already does, '
  'and zero for a zero right-hand side. Solutions do not depend on earlier solves unless the caller passes recycled vectors, and recycled vectors only change the path, not the accuracy.',
  ['inputs', 'histories'], 'All matrices of dimension 1 to 3 over a small alphabet of entries that are well conditioned, all sequences of solves of different sizes, restart lengths, preconditioners.',
  'One random 30 by 30 system is compared with scipy; restarts, recycling, preconditioning and breakdown are never reached.',
  [S + 'scipy/lgmres.cpp', 'code/cpp/bindings/bindings.cpp'], [('restarted minimal residual with augmentation', 'lgmres')],
  ['GPRpy.scipy.lgmres_wrapper'])
p('P23', 'The nonlinear solver returns a root whenever it converges',
  'For every smooth system with a well conditioned Jacobian near the start, the nonlinear solver returns a point where the residual is below the requested tolerance, returns the start itself if it already is an exact root, '
  'and respects each of the absolute, relative and step tolerances.',
  ['inputs', 'configurations'], 'All systems of small dimension from a family with several nonlinearities and scalings, all starts from a lattice, all tolerances.',
  NUM + 'all systems and starts.', [S + 'scipy/newton_krylov.cpp', S + 'scipy/newton_krylov.h'],
  [('inexact Newton with line search', 'nonlin_solve')], ['GPRpy.scipy.newton_krylov', 'stiff predictors'])
p('P24', 'Interface star states satisfy the interface conditions',
  'The star state of two materials in contact has equal normal traction and normal velocity on both sides (all components with no-slip contact), a vanishing tangential traction with slip contact, '
  'vanishing traction against vacuum, and equal temperature and normal heat flux with heat conduction. If both sides already satisfy the conditions they are returned as they are, and the result is equivariant under rotations of the normal and under exchanging the sides; the rotation built from a normal is orthogonal, proper and maps the normal to the first axis.',
  ['inputs', 'configurations'], 'All pairs of materials and of states from an alphabet of jumps, all normals from a lattice of directions, slip and no-slip, with and without heat conduction and relaxation.',
  NUM + 'all pairs, normals and modes.', [S + 'system/multi/riemann.cpp', S + 'system/multi/conditions.cpp', S + 'system/multi/rotations.cpp', S + 'system/multi/eigenvecs.cpp'],
  [('linearised constraints', 'riemann_constraints, star_stepper'), ('conditions', 'stick_bcs, slip_bcs'), ('rotation', 'rotation_matrix, rotate_tensors')],
  ['GPRpy.system.multi.left_star_state, star_stepper, riemann_constraints'])
p('P25', 'The time loop ends at the final time and returns 100 consistent outputs',
  'The time loop composes ghost filling, boundary extension, one step per material, recombination and clean-up in that order for every step, ends at the final time, returns 100 outputs of which the last '
  'is the final state and the others are states of the run in order of time, and returns the last finite state followed by the failed one, still within the 100, if the solution breaks down at any step.',
  ['histories', 'inputs', 'configurations', 'fault_sequences'], 'All lengths of runs around the number of outputs, breakdown at every possible step, one or two materials, both steppers.',
  'No test runs the loop: the test driver stops before the call.', [S + 'solvers/iterator.cpp'], [('loop', 'iterator')],
  ['GPRpy.solvers.iterator'])
p('P26', 'Distortion clean-up preserves the physical state',
  'Renormalizing makes the determinant of the distortion equal to the density ratio by a common factor and is idempotent; rotating replaces the distortion by the one that the same metric and determinant always give, and that depends continuously on it; resetting '
  'removes the shear strain, keeps pressure, density and momentum and lowers the total energy by the strain energy; removing stress at walls gives the opposite strain and so, to first order, the opposite stress. Vacuum cells are untouched, every cell uses its own material, and the distortion criterion is triggered exactly if some cell exceeds the tolerance.',
  ['inputs', 'configurations'], 'All distortions from a family of stretches and rotations, all arrangements of materials and vacuum, all densities.',
  NUM + 'all distortions and arrangements.', [S + 'solvers/utils.cpp', S + 'system/functions/matrices.cpp'],
  [('per-cell rescaling', 'renorm_distortion, rotate_distortion, reset_distortion, contorted, destress')],
  ['GPRpy.solvers.renorm_distortion, rotate_distortion, contorted', 'iterator'])
p('P27', 'Every solver call is a function of its arguments alone',
  'The result of every solver call is determined by its arguments: it is the same whatever calls were made before, whatever uninitialised or freed memory contains and however '
  'often it is repeated, input-only arguments are left unchanged, and nothing is read or written outside the arguments.',
  ['histories', 'inputs', 'configurations'], 'All sequences of two or three calls from an alphabet of operations with different sizes and materials, with every fill pattern of fresh memory.',
  'Every test runs in a process of its own and makes one call; leftover memory happens to be zero.',
  [S + 'solvers/steppers.cpp', S + 'solvers/weno/weno.cpp', S + 'multi/fill.cpp', S + 'solvers/iterator.cpp', S + 'scipy/lgmres.cpp', S + 'etc/globals.cpp'],
  [('locals instead of statics, complete initialisation', 'all solver functions')], ['GPRpy.*'])
p('P28', 'The Python model layer agrees with the C++ solver',
  'For every material built by the Python layer and every state, the Python functions (equation of state, energies, stresses, relaxation and reaction rates, temperatures, wave speeds, derivatives, '
  'fluxes, sources and system matrices, primitive form, x-direction eigenvectors, analytic relaxation, rotations of interfaces) give the same values as the C++ solver, or satisfy their defining relation where the solver has no counterpart. '
  'Conserved vectors built in Python have the pressure, velocity, distortion, impulse and fraction they were built from, and reading a state back gives these again.',
  ['inputs', 'configurations'], 'All materials of all types, all combinations of density, pressure, velocity, distortion, impulse and fraction from small alphabets.',
  'The comparisons with Python that exist fail to run; only finiteness of initial data is tested.',
  ['code/python/gpr/vars/mg.py', 'code/python/gpr/vars/eos.py', 'code/python/gpr/vars/wavespeeds.py', 'code/python/gpr/vars/shear.py', 'code/python/gpr/vars/sources.py', 'code/python/gpr/vars/state.py', 'code/python/gpr/vars/derivatives.py',
   'code/python/gpr/vars/hyp.py', 'code/python/gpr/sys/conserved.py', 'code/python/gpr/sys/primitive.py', 'code/python/gpr/sys/eigenvalues.py', 'code/python/gpr/sys/analytical.py', 'code/python/gpr/sys/jacobians.py', 'code/python/gpr/sys/eigenvectors.py', 'code/python/gpr/multi/rotations.py', 'code/python/gpr/misc/structures.py', 'code/python/gpr/misc/functions.py'],
  [('duplicated formulas', 'gpr.vars.*, gpr.sys.*'), ('vector layout', 'Cvec, State')], ['initial data of every problem', 'plots'])
p('P29', 'The Python parameter builder sets every parameter of the material it describes',
  'Building a material sets exactly the parameters its equation of state, shear, plasticity, heat conduction, reaction and mixture options call for, from the arguments of the same name, for the second '
  'component of a mixture as well as for the first, and chooses fluid, elastic, plastic, power-law or Bingham behaviour from the arguments given. Materials do not share state.',
  ['inputs', 'configurations', 'histories'], 'All combinations of equation of state of first and second component, shear options, reaction types, body forces; all pairs of builds.',
  'The tests build fixed materials and never look at the parameters.',
  ['code/python/gpr/misc/objects.py', 'code/cpp/bindings/bindings.cpp'], [('builder', 'material_params, params')], ['GPRpy.classes.Par'])
p('P30', 'Source terms relax towards equilibrium and vanish in it',
  'The source vector is the body force in the momentum, the relaxation of the distortion with the rate of the material law, the decay of the thermal impulse and the consumption of reactant, and nothing else. '
  'It never increases the shear energy, is zero in equilibrium, for elastic solids and below the yield stress of Bingham fluids, keeps the determinant of the distortion, and commutes with rotations.',
  ['inputs', 'configurations'], 'All material laws, distortions from a family of stretches and rotations, thermal impulses, mixtures.',
  NUM + 'all laws and states.', [S + 'system/equations.cpp', S + 'system/variables/sources.cpp', S + 'system/energy/derivatives.cpp'],
  [('relaxation functions', 'theta1inv, theta2inv'), ('assembly', 'source')], ['GPRpy.system.source', 'ader_stepper'])
p('P31', 'The extension module hands arguments and results through unchanged',
  'Every function of the extension module GPRpy is the solver function of that name: for every argument list it returns the same values and leaves the same contents in the arguments that it works on in place, '
  'whatever was called before. Arrays in another representation (strided, column order, other types, read-only, lists) are either refused before anything is written or treated like the usual one, never '
  'written to a copy that is lost. Every parameter field reads and writes itself and no other one; options, basis polynomials and default arguments are those of the solver; an exception raised by a '
  "caller's function reaches the caller and leaves no trace.",
  ['inputs', 'configurations', 'histories', 'fault_sequences'], 'All functions, all kinds of arrays for each argument, all ordered pairs of calls, all fields, all subsets of optional arguments, failure of every evaluation of a callback.',
  'The tests call a few functions of the module with arrays of one kind and fixed materials, and have no second way to the solver to compare with.',
  ['code/cpp/bindings/bindings.cpp', S + 'system/objects.h', S + 'scipy/poly.h'],
  [('bindings', 'PYBIND11_MODULE'), ('parameters', 'Params, Par')], ['GPRpy.*'])


out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w', encoding='utf-8') as f:
    for q in P:
        assert len(q['title']) <= 80, q['id']
        f.write(json.dumps(q, ensure_ascii=False) + '\n')
print(len(P))
