"""Which harnesses decide which property, in which configurations of options.h."""

LATTICE = 'stateless model checking: exhaustive enumeration of a bounded lattice of %s on the real code'

CHECKS = {
    'P01': dict(
        runs=[dict(cfg=x, harness=['p01.cpp']) for x in ('def', 'thermal', 'n3', 'destress')],
        thorough=[dict(cfg=x, harness=['p01.cpp']) for x in ('n4', 'multi', 'lset0', 'tmulti')],
        technique='stateless model checking: exhaustive enumeration of grids, sides and boundary types on the real code',
        note='Every grid shape up to 4x3 (5 cells in 1D), every assignment of the six boundary types to the sides; every cell and component of the extended grid is compared with an independent index-mapping oracle. Cell contents are distinct tags, so a wrong source cell or sign is always visible.'),
    'P02': dict(
        runs=[dict(cfg='def', harness=['p02.cpp'])],
        technique='stateless model checking: exhaustive enumeration of all masks of bounded grids on the real code',
        note='Every one of the 2^n masks of every grid up to 4x3 (1D up to 8 cells) against a set definition of the dilation.'),
    'P03': dict(
        runs=[dict(cfg=x, harness=['p03.cpp']) for x in ('def', 'n3')],
        thorough=[dict(cfg=x, harness=['p03.cpp']) for x in ('n4', 'n5', 'n6', 'corners')],
        technique='stateless model checking: exhaustive enumeration of bounded data on the real code',
        note="All contents over a small alphabet of every stencil (all variables distinct), polynomial data of every degree below the order, isolated jumps at every position and height of the alphabet; 1D and 2D, orders 2..3 (thorough 4..6 and with corner ghost cells). Between the alphabet's values nothing is claimed."),
    'P04': dict(
        runs=[dict(cfg=x, harness=['p04.cpp']) for x in ('def', 'n3', 'n4', 'n5')],
        thorough=[dict(cfg=x, harness=['p04.cpp']) for x in ('n6',)],
        technique='stateless model checking: exhaustive enumeration of operator entries, polynomials and orders on the real code',
        note='Exact (long double / rational) oracles for every entry of every operator of every order up to 5 (6 in thorough), all basis functions, all monomials; all short sequences of polynomial operations on integer coefficients.'),
    'P05': dict(
        runs=[dict(cfg='def', harness=['p05.cpp']),
              dict(cfg='thermal', harness=['p05.cpp']),
              dict(cfg='multi', harness=['p05.cpp'])],
        technique=LATTICE % 'materials and states (value, inverse and derivative steps)',
        note='Every material x compression x distortion x velocity x pressure of the lattice, with '
             'and without heat conduction, reaction and mixtures; oracle: the equations in extended '
             'precision (mc/ref.h), derivatives by extrapolated differences.  Says nothing about '
             'values between the lattice points.'),
    'P06': dict(
        runs=[dict(cfg=x, harness=['p06.cpp']) for x in ('def', 'thermal', 'multi')],
        technique=LATTICE % 'materials and states',
        note='Every material (and pairs of materials as mixtures) x state x direction x component of the lattice; oracle: physical flux and its differentiated form in extended precision.'),
    'P07': dict(
        runs=[dict(cfg=x, harness=['p07.cpp']) for x in ('def', 'thermal', 'multi')],
        technique=LATTICE % 'states, masks and step counts',
        note='Every material (and pairs of materials as mixtures) x state x direction against the eigenvalues of the system matrix; every mask, placement of the fastest cell, step count and final time of small multi-material grids for the step selection.'),
    'P30': dict(
        runs=[dict(cfg=x, harness=['p30.cpp']) for x in ('def', 'thermal', 'multi')],
        technique=LATTICE % 'material laws and states',
        note='Every relaxation law x state of the lattice, with thermal impulse and mixtures; oracle: the laws in extended precision.'),
    'P08': dict(
        runs=[dict(cfg=x, harness=['p08.cpp']) for x in ('def', 'thermal')],
        technique=LATTICE % 'state pairs, fluxes and directions',
        note="Every ordered pair of the lattice's states x flux x direction; consistency, mirror and permutation symmetry, and the dissipation |A|(qL-qR) against an eigen-decomposition oracle."),
}

CHECKS.update({
    'P10': dict(
        runs=[dict(cfg=x, harness=['p10.cpp']) for x in ('def', 'corners')],
        thorough=[dict(cfg=x, harness=['p10.cpp']) for x in ('n3', 'thermal', 'multi')],
        technique='stateless model checking: exhaustive enumeration of step histories and symmetries on the real code',
        note='Every composition of material, state pattern, boundary types, stepper and flux with every symmetry (reflection, exchange of axes, extrusion to 2D, rotation of the distortion frame); the step of the image is compared with the image of the step.'),
    'P09': dict(
        runs=[dict(cfg=x, harness=['p09.cpp']) for x in ('def', 'corners', 'multi')],
        thorough=[dict(cfg=x, harness=['p09.cpp']) for x in ('n3', 'thermal')],
        technique='stateless model checking: exhaustive enumeration of step histories on the real code',
        note='Every composition of material, cell pattern, closed or periodic boundary, stepper, flux and history of up to two steps; the total of every conserved variable is compared with that before the step (corrected by the known force and wall terms).'),
})

CHECKS.update({
    'P11': dict(
        runs=[dict(cfg=x, harness=['p11.cpp']) for x in ('def', 'thermal', 'multi')],
        thorough=[dict(cfg=x, harness=['p11.cpp']) for x in ('corners', 'n3', 'n4')],
        technique='stateless model checking: exhaustive enumeration of equilibrium states, boundary types and step histories on the real code',
        note='Every material x kind of uniform state (rest, motion, sliding along walls, elastic strain) x compression x boundary types of all sides that admit it x stepper x flux, up to two steps in 1D and one in 2D: every component of every cell stays what it was.'),
})

CHECKS.update({
    'P14': dict(
        runs=[dict(cfg=x, harness=['p14.cpp']) for x in ('def', 'thermal', 'multi')],
        thorough=[dict(cfg=x, harness=['p14.cpp']) for x in ('corners', 'n3')],
        technique='stateless model checking: exhaustive enumeration of all update masks of bounded grids on the real code',
        note='All 2^n masks of grids up to 3x3 (1D up to 6 cells) x stepper x flux x sources x space-time: selected cells against the full update, other cells bit by bit against the untouched (or source-only) values; reconstructions that no selected cell needs hold NaN.'),
})

CHECKS.update({
    'P13': dict(
        runs=[dict(cfg=x, harness=['p13.cpp']) for x in ('def', 'thermal', 'multi')],
        thorough=[dict(cfg=x, harness=['p13.cpp']) for x in ('n3', 'n4')],
        technique='stateless model checking: exhaustive enumeration of cell contents, masks and algorithms on the real code',
        note='Every material x assignment of variations to the points of a cell x step x algorithm (fixed point, Newton, other initial guess) against the weak form assembled by the oracle in extended precision; exact transport of polynomials; relaxation against a fine Runge-Kutta solution; every mask of three cells with NaN in those not selected, with converging and diverging iterations; the half step against its definition.'),
})

CHECKS.update({
    'P15': dict(
        runs=[dict(cfg=x, harness=['p15.cpp']) for x in ('def', 'lset1', 'lset3')],
        technique='stateless model checking: exhaustive enumeration of level-set signs on bounded grids on the real code',
        note='Every assignment of inside, outside and zero to the cells of every grid up to 4x4 (1D up to 10): interface marks, isolated cells, indicators of nested materials and material indices against set definitions.'),
    'P16': dict(
        runs=[dict(cfg='def', harness=['p16.cpp'])],
        technique='stateless model checking: exhaustive enumeration of level sets on bounded grids on the real code',
        note='Every assignment of a small alphabet of values to the cells of small grids and every shape of a catalogue on larger ones, with isotropic and anisotropic spacings, against an independent eikonal solver and its upwind residual; reflections and exchange of axes.'),
    'P17': dict(
        runs=[dict(cfg='def', harness=['p17.cpp'])],
        technique='explicit-state model checking: every history of operations of bounded length on the real queue against a multiset model',
        note='Every sequence of push, change of value, pop and peek over a small alphabet of values up to a depth, followed by draining the queue; with and without the self test of the queue.'),
})

CHECKS.update({
    'P12': dict(
        runs=[dict(cfg=x, harness=['p12.cpp']) for x in ('def', 'tsan')],
        thorough=[dict(cfg=x, harness=['p12.cpp']) for x in ('thermal', 'n3')],
        technique='stateless model checking under a controlled scheduler: every team size and order of threads; all accesses of every execution checked for dependent steps of different threads (partial order reduction: none, so one schedule stands for all)',
        note='Virtual threads replace the OpenMP runtime. Team sizes 1 to rows+2, every order of up to four members (rotations and the reversal beyond), stepper x flux x mask on small 1D and 2D grids against the serial steppers; ghost filling for every pattern of two materials on 3x3 cells. In the instrumented configuration every read and write of every member is recorded byte by byte; without a conflicting pair all interleavings are equivalent to the ones executed.'),
})

CHECKS.update({
    'P18': dict(
        runs=[dict(cfg=x, harness=['p18.cpp']) for x in ('def', 'lset1', 'thermal')],
        thorough=[dict(cfg=x, harness=['p18.cpp']) for x in ('lset3', 'stick', 'norelax')],
        technique='stateless model checking: exhaustive enumeration of arrangements of materials on bounded grids on the real code',
        note='Every arrangement of two or three materials (also exactly on the interface, and vacuum) on grids up to 4x3 (1D up to 8 cells), straight and round interfaces at every position of larger ones; own cells, selected cells, first row, band and cells out of reach against a set and geometry oracle. Schedules of threads are enumerated by P12.'),
})

CHECKS.update({
    'P19': dict(
        runs=[dict(cfg=x, harness=['p19.cpp']) for x in ('def', 'multi', 'lset1')],
        thorough=[dict(cfg=x, harness=['p19.cpp']) for x in ('lset3', 'tmulti', 'lset0')],
        technique='stateless model checking: exhaustive enumeration of masks, vacua and level sets of one and two cells on the real code',
        note='Every number of materials, every subset of them that is vacuum, every subset that updated each cell, every assignment of level sets to the grids; all other contents are distinct tags. Concentrations below, within and above their limits for every small grid.'),
})

CHECKS.update({
    'P20': dict(
        runs=[dict(cfg=x, harness=['p20.cpp']) for x in ('def', 'thermal')],
        thorough=[dict(cfg=x, harness=['p20.cpp']) for x in ('multi', 'tmulti')],
        technique=LATTICE % 'strains, materials and step lengths',
        note='Every material x shape and size of strain x compression x frame x step length over six decades; oracle: the relaxation equation of mc/ref.h, integrated in extended precision. All force vectors, all thermal impulses of the lattice.'),
})

CHECKS.update({
    'P21': dict(
        runs=[dict(cfg=x, harness=['p21.cpp']) for x in ('def', 'n3', 'multi')],
        thorough=[dict(cfg=x, harness=['p21.cpp']) for x in ('tmulti', 'n4', 'n5')],
        technique=LATTICE % 'kinetics, states and steps',
        note='Every reaction law and parameter set x material or mixture x state x fraction, steps from none to 1e5 time scales; oracle: the rate laws in extended precision and their integration with fine steps. Scalar integrators: every equation x start x time x number of steps, against the exact tableau, the exact solution and the Padé approximation.'),
})

CHECKS.update({
    'P22': dict(
        runs=[dict(cfg='def', harness=['p22.cpp'])],
        technique='stateless model checking: exhaustive enumeration of small linear systems, solver parameters and histories of solves on the real code',
        note='Every matrix of order 1 to 3 over a small alphabet that is well conditioned x right-hand side x start x preconditioner x restart length x number of recycled vectors; every history of up to three solves with and without recycling; structured systems up to order 40. Oracle: the residual.'),
    'P23': dict(
        runs=[dict(cfg='def', harness=['p23.cpp'])],
        technique=LATTICE % 'nonlinear systems, starts and tolerances',
        note='Every nonlinearity x coupling x scale x root x start x tolerance of systems with up to four unknowns; oracle: the residual, the known root and a count of evaluations.'),
    'P24': dict(
        runs=[dict(cfg=x, harness=['p24.cpp']) for x in ('def', 'thermal', 'stick', 'tstick')],
        thorough=[dict(cfg=x, harness=['p24.cpp']) for x in ('norelax', 'tnorelax', 'multi')],
        technique=LATTICE % 'pairs of materials, jumps and normals',
        note='Every pair of materials (or vacuum) x jump x normal x step length; oracle: the interface conditions and wave speeds in extended precision, all symmetries. The rotation for every normal of an integer lattice.'),
})

CHECKS.update({
    'P25': dict(
        runs=[dict(cfg=x, harness=['p25.cpp']) for x in ('def', 'rotate', 'multi')],
        thorough=[dict(cfg=x, harness=['p25.cpp']) for x in ('lset0', 'lset1', 'thermal')],
        technique='stateless model checking: exhaustive enumeration of bounded runs of the time loop on the real code, with breakdown at every output',
        note='Uniform bodies in a force field whose momentum tells the time of every output, for run lengths around every threshold of the loop; every run of the alphabet (domain, boundary types, materials, stepper, flux, length, distortion criterion) against the composition of the parts; unstable runs that break down in the first to the last output. Final times that coincide with the end of a step up to rounding are left out.'),
    'P26': dict(
        runs=[dict(cfg=x, harness=['p26.cpp']) for x in ('def', 'thermal', 'multi')],
        thorough=[dict(cfg=x, harness=['p26.cpp']) for x in ('lset0', 'lset1', 'lset3', 'tmulti')],
        technique=LATTICE % 'distortions, materials and arrangements of cells',
        note='Every stretch x left and right rotation x determinant x density x material; every arrangement of materials and vacua in three cells. Oracle: metric, determinant, energies, stresses and pressures in extended precision.'),
})

CHECKS.update({
    'P27': dict(
        runs=[dict(cfg=x, harness=['p27.cpp']) for x in ('def', 'raw', 'thermal')],
        thorough=[dict(cfg=x, harness=['p27.cpp']) for x in ('multi', 'n3', 'asan', 'tmulti', 'lset0')],
        technique='stateless model checking: exhaustive enumeration of histories of calls and of contents of uninitialised memory on the real code',
        note='Every call of the interface on several inputs: with every pattern of uninitialised heap and stack memory, after every other call, repeated; outputs, arguments and guard zones around them are compared byte by byte.'),
    'P28': dict(
        runs=[dict(cfg='python', harness=['p28.py', x]) for x in ('pydef', 'pytmulti')],
        thorough=[dict(cfg='python', harness=['p28.py', x]) for x in ('pymulti',)],
        technique=LATTICE % 'materials and states, in the Python layer and the compiled solver side by side',
        note='Every material x state x direction of the lattice: each function of gpr.vars, gpr.sys and gpr.misc against the extension module built from the same tree, against its definition, and derivatives against extrapolated differences.'),
    'P29': dict(
        runs=[dict(cfg='python', harness=['p29.py', 'pydef'])],
        technique='stateless model checking: exhaustive enumeration of material descriptions and of histories of up to three (thorough: four) of them on the real code',
        note='Every combination of equation of state, temperature, shear law, heat conduction, reaction and mixture options, every field of the result (those that must stay unset, too).'),
})

CHECKS['P31'] = dict(
    runs=[dict(cfg='python', harness=['p31.py', x, True]) for x in ('pydef', 'pytmulti')],
    thorough=[dict(cfg='python', harness=['p31.py', x, True]) for x in ('pymulti',)],
    technique='stateless model checking: exhaustive enumeration of calls, histories of two calls, argument representations and callback failures on the real code',
    note='Every function of the module against a second, independent binding of the same compiled solver (mc/native.cpp) that copies its arguments and hands back what the call made of them; every argument in every representation; every ordered pair of functions; every parameter field; every subset of optional arguments; an exception at every evaluation of a callback.')

NOT_APPLICABLE = {}
