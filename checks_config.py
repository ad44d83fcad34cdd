"""What each check builds and how it describes its cases."""
FX = ["fx_pg.cpp", "fx_pg2.cpp", "fx_mix.cpp", "fx_mix2.cpp", "fx_mix3.cpp", "fx_sw.cpp", "fx_ideal.cpp"]
FX_SOURCES = ["src/equations/[A-B]*.cpp", "src/equations/[I-Z]*.cpp", "src/equations/advection/*.cpp", "src/equations/burgers/*.cpp", "src/equations/shallow_water/*.cpp", "src/equations/perfect_gas/*.cpp", "src/equations/perfect_gas_mix/EinfeldtSignal*.cpp",
              "src/equations/perfect_gas_mix/Hllem*.cpp", "src/equations/ideal_gas_mix/Einfeldt*.cpp",
              "src/equations/ideal_gas_mix/FlameMasterReactor.cpp", 
              "src/equations/ideal_gas_mix/Hlle*.cpp", "src/equations/ideal_gas_mix/MusclHancockPrim*.cpp",
              "src/equations/ideal_gas_mix/MusclHancockChar*.cpp", "src/equations/ideal_gas_mix/mechanism/Burke2012.cpp",
              "src/ode_solver/OdeSolverFactory.cpp", "src/ode_solver/RadauSolver.cpp", "src/ode_solver/*.f"]
RX_SOURCES = ["src/equations/ideal_gas_mix/FlameMasterReactor.cpp", "src/equations/ideal_gas_mix/mechanism/Burke2012.cpp",
              "src/ode_solver/OdeSolverFactory.cpp", "src/ode_solver/RadauSolver.cpp", "src/ode_solver/*.f"]
CHECKS = {
    "C01": dict(
        harness=["C01.cpp"], sources=["src/boundary_condition/ReflectiveBoundary.cpp"], sanitize=True,
        rule="Generated index boxes (origins -7..7, extents 0..5, ranks 1-4), directions and widths; compared "
             "against explicit std::set enumeration. Non-trivial: non-empty intersection / more than one index "
             "visited / non-empty fill box; distinct by the generating choice sequence."),
    "C02": dict(
        harness=["C02.cpp", "C02_a.cpp", "C02_b.cpp", "C02_c.cpp", "C02_d.cpp", "C02_pv.cpp"], sources=[], sanitize=True,
        rule="Generated extents (0..5), layouts, permuted/padded strides, slice specifiers, nested sub views and span "
             "sub-view histories; every element address is compared with an offset model. Non-trivial: more than one "
             "element / a proper non-empty slice; distinct by choice sequence."),
    "C03": dict(
        harness=["C03_a.cpp", "C03_b.cpp", "C03_c.cpp", "C03_d.cpp", "C03_e.cpp", "C03_f.cpp"], sources=[], sanitize=True,
        rule="Histories of loads/stores (scalar, chunk, partial chunk, pointer, rows, slices of views) on generated "
             "patches, compared with a plain array model of the whole buffer after every step. Non-trivial: the "
             "history moves values in a patch of several cells; distinct by choice sequence."),
    "C04": dict(
        harness=["C04.cpp"], sources=["src/HyperbolicPatchIntegrator.cpp"], sanitize=True,
        rule="Generated patches (row lengths 1..21, ranks 1-3, 1-4 components, all directions, in place or not, "
             "strided sub views with guard cells) with dyadic or arbitrary data; four backends against exact flux "
             "differencing and the net flux. Non-trivial: more than one cell value; distinct by choice sequence."),
    "C05": dict(
        harness=["C05.cpp"] + FX, sources=FX_SOURCES, sanitize=False,
        rule="Generated patches (ranks 1-3, row lengths 1..20 with every remainder, sub views), directions, time steps and "
             "states (uniform, jumps, alternating, random; amplitudes 0..1.5) for all flux methods of 6 equations: "
             "scalar, vectorised and OpenMP backends must agree, faces outside of the box stay untouched, a cell "
             "influences only the faces that see it; masked chunks with covered faces and cells. Non-trivial: more "
             "than one face per row / some but not all lanes valid; distinct by choice sequence."),
    "C06": dict(
        harness=["C06.cpp"] + FX, sources=FX_SOURCES, sanitize=False,
        rule="Generated patches (ranks 1-3, all remainders), all flux methods, directions and backends; a much faster cell "
             "is planted at a random position in most cases. The time step is compared with the minimum over single "
             "faces, with the outer acoustic speeds of every face and cell, with scaled mesh widths and sub boxes. "
             "Non-trivial: more than one face; distinct by choice sequence."),
    "C07": dict(
        harness=["C07.cpp"] + FX, sources=FX_SOURCES, sanitize=False,
        rule="Generated admissible states of 6 equations (ranks 1-3, all directions): the physical flux (scalar and every "
             "vector lane) against the textbook formula evaluated from the primitive variables; patches and masked chunks "
             "filled with one state per stencil through every flux method, backend and time step. Non-trivial: the flux "
             "is not zero; distinct by choice sequence."),
    "C08": dict(
        harness=["C08.cpp"] + FX, sources=FX_SOURCES, sanitize=False,
        rule="Generated stencils (two-state jumps and arbitrary cells, amplitudes 0..1.5, moving with up to Mach 2.5) for all "
             "flux methods of the gas, mixture, shallow-water and Burgers equations; each stencil is mirrored along its "
             "axis or moved to another axis by a random permutation of the axes and flux and stable time step compared. "
             "Non-trivial: the stencil is not uniform / the permutation is not the identity; distinct by choice sequence."),
    "C10": dict(
        harness=["C10.cpp"], sources=["src/equations/PerfectGas.cpp", "src/equations/perfect_gas/ExactRiemannSolver_*.cpp", "src/equations/perfect_gas/GodunovMethod_*.cpp"], sanitize=False,
        rule="Riemann problems are constructed from their waves (shock, rarefaction or none on both sides, pressure ratios "
             "up to 1e4 per wave, gamma 1.1..2, any frame of reference, tangential velocities), so that the exact star "
             "state, wave speeds and fan are known without root finding; the solver has to find the same solution: "
             "middle state, signals, interface state, state at any speed, vectorised and masked lanes, Godunov flux and "
             "time step. Non-trivial: at least one acoustic wave; distinct by choice sequence."),
    "C11": dict(
        harness=["C11.cpp"], sources=["src/equations/ShallowWater.cpp", "src/equations/shallow_water/*.cpp"], sanitize=False,
        rule="Riemann problems of the shallow water equations are constructed from their waves (bores, rarefactions, "
             "transonic fans, depth ratios up to 100 per wave, any gravity, direction and frame of reference); middle "
             "state, signals, interface state, vector lanes, Godunov and HLL fluxes and the physical flux are compared "
             "with the exact solution. Non-trivial: at least one gravity wave; distinct by choice sequence."),
    "C12": dict(
        harness=["C12.cpp"] + FX, sources=FX_SOURCES, sanitize=False,
        rule="Generated pairs and triples of gas states (perfect gas, mixtures, reacting ideal gas; ranks 1-3): Einfeldt "
             "signals (scalar, vectorised, masked) against the acoustic speeds of both states and single shocks, HLL flux "
             "and solution against the formula, supersonic pairs against the upwind physical flux, updates of a middle "
             "cell with CFL up to 0.5 between colliding, receding or arbitrary neighbours, stationary contacts and shear "
             "layers. Non-trivial: states differ / flow is supersonic; distinct by choice sequence."),
    "C14": dict(
        harness=["C14.cpp", "fx_sw.cpp"], sources=["src/equations/ShallowWater.cpp", "src/equations/shallow_water/*.cpp", "src/equations/Advection.cpp", "src/equations/Burgers.cpp", "src/equations/advection/*.cpp", "src/equations/burgers/*.cpp"], sanitize=False,
        rule="Generated scalar data (shocks, fans, transonic fans, colliding opposite values) on patches for all backends: "
             "every flux against the extremum of the flux function between both cells and the time step against the wave "
             "speeds; histories of up to 6 split steps with CFL up to 1 on periodic grids against the local maximum "
             "principle, exact upwind transport and conservation. Non-trivial: at least one jump / more than two cells "
             "per row; distinct by choice sequence."),
    "C09": dict(
        harness=["C09.cpp"], sources=["src/equations/PerfectGas.cpp", "src/equations/PerfectGasMix.cpp", "src/equations/IdealGasMix.cpp"], sanitize=False,
        rule="Generated primitive states (densities and pressures over 12 decades, Mach numbers up to 30, gamma 1.1..2, gas "
             "constants, low-Mach scaling) of perfect gases and mixtures in ranks 1-3: conversions forth and back, every "
             "accessor, all vector lanes with independent states, masks with garbage in the invalid lanes, whole patches "
             "with five backends, isentropic changes of pressure, against the gas law in extended precision. Non-trivial: "
             "moving state / some valid lane / different cells / pressure changes; distinct by choice sequence."),
    "C15": dict(
        harness=["C15.cpp", "fx_mix.cpp", "fx_mix2.cpp", "fx_mix3.cpp", "fx_ideal.cpp"], sources=FX_SOURCES, sanitize=False,
        rule="Generated mixtures (0-5 species, 0-4 passive scalars, ranks 1-3): conversions between conserved, primitive and "
             "kinetic states for single states, vector lanes and masks; stencils of arbitrary gas states with equal or "
             "different concentrations for all mixture flux methods: tracer flux against mass flux, upwinding, bounds "
             "after an update with CFL 0.45. Non-trivial: there are tracers and the states differ; distinct by choice "
             "sequence."),
    "C13": dict(
        harness=["C13.cpp"] + FX, sources=FX_SOURCES, sanitize=False,
        rule="Generated one-sided differences (extrema, equal, zero, ratios up to 1e9) for all limiters; three- and four-cell "
             "stencils of gas states (ranks 1-3, any Mach-number scaling, tracers) for conservative, primitive and "
             "characteristic gradients and reconstructions and for all second-order fluxes, which have to be the first-order "
             "flux of independently predicted interface states; histories of advection and Burgers on periodic grids. "
             "Non-trivial: non-zero slope / positive time step and different states; distinct by choice sequence."),
    "C17": dict(
        harness=["C17.cpp"], sources=RX_SOURCES, sanitize=False,
        rule="Histories of up to 8 scalar or 6 vectorised setters (mass and mole fractions as numbers or strings, invalid "
             "strings, temperature, density, pressure, internal energy, enthalpy, isentropic pressure, copies, moves, masks "
             "with garbage) on the shipped mechanism and on generated mechanisms with known thermodynamics; every accessor "
             "against an independent model of the mixture after each step. Non-trivial: more than one step; distinct by "
             "choice sequence."),
    "C16": dict(
        harness=["C16.cpp"], sources=RX_SOURCES + ["src/equations/IdealGasMix.cpp"], sanitize=False,
        rule="Generated mixtures of the shipped and of generated mechanisms (ranks 1-3, temperatures 200..3500 K, pressures "
             "over 5 decades, Mach numbers up to 5, species densities which do not add up to the density, tiny negative "
             "ones): conversions from the reactor and from conserved variables, in place, twice, with any history of the "
             "reactor; vector lanes with independent states and garbage in masked lanes; patches with five backends; against "
             "an independent model of the mixture. Non-trivial: moving gas / valid lanes / different cells; distinct by "
             "choice sequence."),
    "C18": dict(
        harness=["C18.cpp"], sources=RX_SOURCES, sanitize=False,
        rule="Generated mixtures of hydrogen, oxygen, radicals and inert gases at 300..2800 K and 0.1..50 bar advanced by "
             "1 ns..10 ms in one or several steps, with and without feedback, copies advanced independently; production "
             "rates of arbitrary mixtures against conservation of mass and atoms; networks of isomers with generated "
             "first-order rates against the exact solution. Non-trivial: the mixture reacts; distinct by choice sequence."),
    "C19": dict(
        harness=["C19.cpp"], sources=["src/ode_solver/*.f", "src/ode_solver/RadauSolver.cpp", "src/ode_solver/OdeSolverFactory.cpp"],
        sanitize=False,
        rule="Initial value problems with known solutions (normal linear systems of up to 10 equations with rates up to 1e6, "
             "oscillations, growth and forcing; logistic, recombination and nonlinear relaxation equations), forwards and "
             "backwards over 1e-5..100 time units, any tolerances 1e-13..1e-5, with and without Jacobian and feedback, in one "
             "or two parts; histories of creating, cloning, copying, configuring and using solvers against fresh ones; "
             "integrations which cannot succeed. Non-trivial: the solution changes by more than the tolerance / a solver "
             "with a history is used; distinct by choice sequence."),
    "C20": dict(
        harness=["C20_a.cpp", "C20_b.cpp", "C20_c.cpp", "C20_d.cpp", "C20_e.cpp"],
        sources=["src/cutcell_method/KbnStabilisation.cpp", "src/cutcell_method/MyStabilisation.cpp", "src/CutCellData.cpp", "src/AMReX/cutcell/FillCutCellData.cpp", "src/equations/PerfectGas.cpp", "src/equations/perfect_gas/*.cpp"],
        sanitize=True,
        rule="Generated cut-cell patches (ranks 2-3, rows of 1..19 faces, sub views of larger arrays, fractions 0, tiny, "
             "partial, 1, centroids inside and outside of the cell, normals incl. axis-aligned and nearly aligned ones): the "
             "split of faces into shielded parts, stabilised fluxes of single components and of whole states, reference "
             "states and boundary fluxes of embedded walls against an exact Riemann solution, masked regular fluxes and time "
             "steps. Non-trivial: shielded or closed faces / cut cells present; distinct by choice sequence."),
    "C21": dict(
        harness=["C21_lim.cpp", "C21_gc.cpp", "C21_gp.cpp", "C21_hg.cpp", "C21_in.cpp"],
        sources=["src/cutcell_method/AnyMdLimiter.cpp", "src/CutCellData.cpp", "src/AMReX/cutcell/FillCutCellData.cpp", "src/equations/PerfectGas.cpp"],
        sanitize=True,
        rule="Generated walls (plane, wedge, irregular, stairs; any orientation) clipped against the cells by polygons, random cell "
             "sizes: gradients of conserved and primitive variables for linear, constant and arbitrary data with NaN in covered "
             "cells, limiters (with a brute-force optimum over all vertices), unshielded and shielded centroids, h-grid states "
             "and slopes, integrals. Non-trivial: cut cells / partly shielded faces present, slopes limited, more than one "
             "integration point; distinct by choice sequence.",
    ),
    "C22": dict(
        harness=["C22.cpp"],
        sources=["src/geometry/*.cpp"],
        sanitize=True,
        rule="Generated polygons (arbitrary, star-shaped, rectangles with collinear points, combs; both orientations, repeated "
             "points, 3..40 corners) with points at the height of corners, near edges and corners; inverted, rotated, "
             "axially rotated, united and type-erased copies; half spaces; cones; bent tubes and point files. Non-trivial: "
             "point inside / generic angle / away from the surface; distinct by choice sequence.",
    ),
    "C23": dict(
        harness=["C23.cpp"],
        sources=["src/split_method/*.cpp"],
        sanitize=True,
        rule="Godunov, Strang and lumped Strang splittings, direct or type-erased (constructed, assigned, copied), of 1..5 "
             "operators through every entry point; steps 0, negative, 1e-300..1e300; an error or exception injected at call "
             "0..20; matrix exponentials as operators. Non-trivial: more than one operator with a non-zero step, the error "
             "is reached, the operators do not commute; distinct by choice sequence.",
    ),
    "C24": dict(
        harness=["C24.cpp", "C24b.cpp", "fakempi.cpp"],
        sources=["src/split_method/*.cpp", "src/ext/Mpi.cpp", "src/counter/*.cpp"],
        sanitize=True,
        rule="Hierarchies of 1..3 nested levels in 1, 2 and 3 dimensions (any refinement ratio, periodic or mirrored, nested or "
             "covering, regridded between and within coarse steps) advanced 1..3 cycles with and without subcycling by "
             "Godunov, Strang and lumped Strang splittings over an upwind advection context with flux registers; errors "
             "injected at every query of a stable step, on other ranks, after a level step and in source terms. "
             "Non-trivial: not constant and several levels or directions / error behind the first query; distinct by "
             "choice sequence.",
    ),
    "C25": dict(
        harness=["C25.cpp", "C25b.cpp", "fakempi.cpp", "version.cpp"],
        sources=["src/RunSimulation.cpp", "src/split_method/*.cpp", "src/ext/Mpi.cpp", "src/counter/*.cpp",
                 "src/ext/ProgramOptions.cpp", "src/ext/Log.cpp", "src/ext/Version.cpp"],
        sanitize=True,
        rule="Runs of a scripted solver (any start time and cycle, stable steps, CFL number, final time, cycle limit, output "
             "times and frequencies, up to four failures in a row, with and without backup) whose trace is judged step by "
             "step, and runs of the real subcycling and non-subcycling solvers on refined periodic grids whose levels find "
             "their steps too large at random. Non-trivial: several steps with a failure or an output / refined and "
             "troubled; distinct by choice sequence.",
    ),
    "C26": dict(
        harness=["C26.cpp", "fakempi.cpp"],
        sources=["src/ext/ProgramOptions.cpp", "src/ext/Mpi.cpp"],
        sanitize=True,
        rule="Schedules of 0..3 frequencies (0 included) and 0..3 intervals (0 included, 1e-6..10) with tolerances 1e-12..1e-8, "
             "given directly or as options, asked at multiples as products and sums round them, near them and anywhere; "
             "walks through time that stop at each announced output time; combinations of 0..5 members, built by a factory "
             "from options with inherited or own schedules, unknown and missing types. Non-trivial: the answer is not a "
             "matter of rounding / several outputs hit / members that fire and stay silent; distinct by choice sequence.",
    ),
    "C27": dict(
        harness=["C27.cpp", "fakempi.cpp", "version.cpp"],
        sources=["src/RunSimulation.cpp", "src/ext/Mpi.cpp", "src/counter/*.cpp", "src/ext/CopyInputFile.cpp",
                 "src/ext/ProgramOptions.cpp", "src/ext/Log.cpp", "src/ext/Version.cpp"],
        sanitize=True,
        rule="Option maps with nested values of every kind, read with every type and compared with a model of what converts "
             "and what must be rejected; the same values written into input files and command lines; files read by up to five "
             "ranks; option groups with any subset of their fields. Non-trivial: several options (accepted and rejected "
             "reads), several ranks, several given fields; distinct by choice sequence.",
    ),
    "C28": dict(
        harness=["C28.cpp", "fakempi.cpp"],
        sources=["src/counter/*.cpp"],
        sanitize=True,
        rule="Histories of lookups, additions and resets in a registry against a multiset model; the same counters created in "
             "any order on up to five ranks (threads with real collectives) and gathered; histories of starting, moving, "
             "assigning and ending timers bounded by clock readings taken around each operation; printed tables parsed back. "
             "Non-trivial: several counters with resets / several ranks in different orders / moves and ended timers / "
             "several rows; distinct by choice sequence.",
    ),
    "C29": dict(
        harness=["C29.cpp"],
        sources=["src/tagging_method/*.cpp", "src/equations/PerfectGas.cpp"],
        sanitize=True,
        rule="Tag patterns inside of larger buffers, buffer widths 0..4; cut-cell volume fractions of any kind on boxes that "
             "partly overlap; perfect gas fields (small integers without any rounding, and reals) with one or two monitored "
             "quantities, tolerances, tags of the same or a higher rank, covered neighbours, scalar and chunked detectors, "
             "ranks 1..3, against a model per cell. Non-trivial: cells get tagged and others do not; distinct by choice "
             "sequence.",
    ),
    "C30": dict(
        harness=["C30.cpp"], sources=RX_SOURCES + ["src/boundary_condition/ReflectiveBoundary.cpp", "src/equations/PerfectGas.cpp", "src/equations/PerfectGasMix.cpp", "src/equations/IdealGasMix.cpp"],
        sanitize=False,
        rule="Arbitrary component values, unit normals (axes, pythagorean, any) and rotations (quarter turns, any) for "
             "conservative, complete and primitive states of the perfect gas, its mixture and the reacting ideal gas in ranks "
             "1..3, aliased or not; gas states of all regimes for the covariance of flux and completion; patches with any "
             "origin, fill boxes of 1..5 ghost cells at either side. Non-trivial: non-zero normal momentum / a rotation that "
             "is not the identity; distinct by choice sequence.",
    ),
    "C31": dict(
        harness=["C31.cpp", "C31_r1.cpp", "C31_r2.cpp", "C31_r3.cpp", "fakempi.cpp", "version.cpp"] + FX,
        sources=FX_SOURCES + ["src/split_method/*.cpp", "src/ext/Mpi.cpp", "src/counter/*.cpp", "src/RunSimulation.cpp", "src/output/*.cpp",
                              "src/HyperbolicPatchIntegrator.cpp", "src/ext/ProgramOptions.cpp", "src/ext/Log.cpp", "src/ext/Version.cpp"],
        sanitize=False,
        rule="Runs of up to 12 steps (Godunov, Strang and lumped Strang splitting, with and without the subcycling driver, five "
             "back-ends, CFL numbers .2 to .5) of every flux method in its rank on grids from a single cell per direction on, "
             "with periodic, wall and open sides: totals and admissibility after each step, uniform flow, runs of shifted, "
             "mirrored, rotated data and of other back-ends, plane data, and Riemann problems on 40 and 160 cells against "
             "their exact solution. Non-trivial: the initial data vary and time passes; distinct by choice sequence.",
    ),
    "C32": dict(
        harness=["C32.cpp"], sources=["src/equations/PerfectGas.cpp", "src/equations/PerfectGasMix.cpp"], sanitize=False,
        rule="Gas states of all regimes (ranks 1..3, any gamma, with species and scalars), mass flows taken from points on the "
             "wave curve (shocks up to 100x, rarefactions), zero, reverse, arbitrary and unattainable ones, any relative area, "
             "aliased or not; and star states for the inverse. Non-trivial: a state was returned; distinct by choice sequence.",
    ),
    "C33": dict(
        harness=["C33.cpp"], sources=[], sanitize=True,
        rule="Histories of up to 24 constructions (from temporaries and from objects which live on), copies, moves, assignments "
             "(also to itself), destructions and calls with arbitrary arguments on four objects of each type-erased class, "
             "holding stateful strategies of two kinds, empty or moved from, with AddressSanitizer. Non-trivial: something was "
             "copied and something was called; distinct by choice sequence.",
    ),
}
