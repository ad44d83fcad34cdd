#!/usr/bin/env python3
"""Source of properties.jsonl (run after editing)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})

I = "include/fub/"
S = "src/"
p("C01", "Index boxes behave as sets and index loops visit each cell exactly once",
  "In one, two and three dimensions, growing, shrinking, shifting, intersecting, embedding and containment tests on half-open index boxes agree with the corresponding operations on the sets of cells they denote. Looping over a box, an extent or a strided face range invokes the body exactly once per index of that set, in column-major order, and never for an empty box.",
  ["inputs"], "all boxes (including empty, negative-origin and degenerate ones), directions, widths and ranks 1..3",
  "Existing tests use two or three literal boxes; off-by-one errors show up only for particular widths, empty or negative boxes.",
  [I+"PatchDataView.hpp", I+"ForEach.hpp", I+"core/mdspan.hpp"],
  [("IndexBox, Grow/Shrink/Intersect/Contains/Shift/Embed", I+"PatchDataView.hpp"), ("ForEachIndex", I+"ForEach.hpp"), ("ReflectIndex", S+"boundary_condition/ReflectiveBoundary.cpp")])
p("C02", "Multi-dimensional views alias exactly the elements they denote",
  "Every in-range multi-index of a left, right or strided view maps to its own distinct element inside the viewed storage, and taking sub-spans, slices and sub-views yields views whose elements are exactly the corresponding elements of the parent, with the requested extents, also when ranges are empty. Size, extent, stride, contiguity and bounds queries are consistent with that mapping.",
  ["inputs"], "all extents (static/dynamic mixes), layouts, slice specifications, index boxes and ranks 1..4",
  "The mdspan/span tests check a handful of fixed extents and slices.",
  [I+"core/span.hpp", I+"core/mdspan.hpp", I+"PatchDataView.hpp"],
  [("span::first/last/subspan", I+"core/span.hpp"), ("layout mappings and subspan", I+"core/mdspan.hpp"), ("PatchDataView::Subview, SliceLast, Shift", I+"PatchDataView.hpp")])
p("C03", "Loading and storing states moves exactly the addressed values",
  "Storing a state (scalar, vectorised chunk, partial chunk, masked chunk or row pointer) into patch data and loading it back returns every component unchanged, changes no other cell or component, and reads exactly the addressed cells. Copying, assigning, zeroing and component-wise iteration over states and views treat each component of each variable exactly once.",
  ["inputs", "histories"], "all equations (scalar, vector and species variables, ranks 1..3), patch shapes, positions, chunk remainders and sequences of loads and stores",
  "Tests store one or two literal states; remainder lanes, multi-component variables and neighbouring-cell overwrites are not sampled.",
  [I+"State.hpp", I+"StateArray.hpp", I+"StateRow.hpp", I+"StateUtil.hpp"],
  [("Load/Store", I+"State.hpp"), ("Load/LoadN/Store/StoreN, ViewPointer", I+"StateArray.hpp"), ("Row, ForEachRow", I+"StateRow.hpp")])
p("C04", "The conservative cell update is exact flux differencing on every backend",
  "Given any face fluxes, the patch update changes every requested interior cell by (dt/dx) times the difference of its two face fluxes, so that the total change of each conserved quantity over a patch equals the net flux through its outer faces. The sequential, vectorised and threaded backends give the same result for every patch shape, rank and direction, and cells or components outside of the requested region are left untouched.",
  ["inputs", "configurations"], "all patch sizes, ghost widths, ranks 1..3, directions, time steps, mesh widths and backends",
  "One existing test compares a single patch; conservation is a for-all statement over data, shapes and backends.",
  [I+"HyperbolicPatchIntegrator.hpp", S+"HyperbolicPatchIntegrator.cpp", I+"HyperbolicMethod.hpp"],
  [("UpdateConservatively", S+"HyperbolicPatchIntegrator.cpp")])
p("C05", "Vectorised and scalar numerical fluxes agree",
  "For every numerical flux that offers both, computing the fluxes (or the stable time step) on a patch with the vectorised backend gives, up to round-off, what the scalar backend gives face by face, in every direction and rank and for every row length including chunk remainders. Each face flux depends only on the cells of its own stencil.",
  ["inputs", "configurations"], "all admissible cell data, patch shapes, directions, equations and flux methods with both implementations",
  "No existing test compares the two implementations, and remainder handling depends on the row length modulo the chunk size.",
  [I+"flux_method/FluxMethod.hpp", I+"flux_method/HllMethod.hpp", I+"flux_method/GodunovMethod.hpp", I+"flux_method/MusclHancockMethod.hpp", I+"flux_method/MusclHancockMethod2.hpp", S+"equations/perfect_gas/HllemMethod.hpp"],
  [("FluxMethod::ComputeNumericFluxes(seq|simd)", I+"flux_method/FluxMethod.hpp"), ("Hllem", S+"equations/perfect_gas/HllemMethod.hpp")])
p("C06", "The stable time step respects the CFL condition for every cell of the patch",
  "The stable time step reported for a patch never exceeds the mesh width divided by the largest wave speed found at any face the fluxes will be computed for, is not smaller than the flow speed plus the speed of sound (enlarged at most by the kinetic energies of the two states) requires, and scales linearly with the mesh width. It is the minimum over all faces: restricting the patch can only enlarge it, and the location of the fastest cell (first, last, remainder lane) does not matter.",
  ["inputs", "configurations"], "all admissible states, patch shapes, directions, positions of the extremal cell, backends",
  "Existing tests never check time-step values.",
  [I+"flux_method/FluxMethod.hpp", I+"flux_method/HllMethod.hpp", I+"flux_method/GodunovMethod.hpp", I+"flux_method/MusclHancockMethod.hpp"],
  [("FluxMethod::ComputeStableDt", I+"flux_method/FluxMethod.hpp"), ("ComputeStableDt of base methods", I+"flux_method/HllMethod.hpp")])
p("C07", "Numerical fluxes are consistent with the physical flux",
  "For every equation, flux method, rank and direction, a stencil filled with one admissible state yields exactly the physical flux of that state (up to round-off), with scalar and vectorised evaluation. The physical flux itself is the textbook flux of the conservation law expressed in the conserved variables.",
  ["inputs", "configurations"], "all admissible states, directions, ranks, time steps and flux methods",
  "No test evaluates any flux on a constant state.",
  [I+"flux_method/HllMethod.hpp", I+"flux_method/GodunovMethod.hpp", I+"flux_method/MusclHancockMethod.hpp", I+"flux_method/MusclHancockMethod2.hpp", S+"equations/PerfectGas.cpp", S+"equations/PerfectGasMix.cpp", S+"equations/IdealGasMix.cpp", S+"equations/ShallowWater.cpp", S+"equations/Advection.cpp", S+"equations/Burgers.cpp", S+"equations/perfect_gas"],
  [("Flux(...)", S+"equations/PerfectGas.cpp"), ("ComputeNumericFlux", I+"flux_method/HllMethod.hpp")])
p("C08", "Numerical fluxes respect mirror and axis-permutation symmetry",
  "Mirroring the stencil (reversed order, negated normal momentum) mirrors the flux: mass, energy and scalar fluxes change sign, the normal momentum flux keeps it and tangential momentum fluxes change sign. Solving along a different coordinate axis with the momentum components permuted gives the permuted flux.",
  ["inputs", "configurations"], "all admissible stencils, ranks 1..3, axes, flux methods",
  "Requires comparing pairs of runs over arbitrary data; existing tests contain no such comparison.",
  [I+"flux_method/HllMethod.hpp", I+"flux_method/GodunovMethod.hpp", I+"flux_method/MusclHancockMethod.hpp", S+"equations/perfect_gas/HllemMethod.hpp", S+"equations/perfect_gas/ExactRiemannSolver.hpp"],
  [("ComputeNumericFlux", I+"flux_method/HllMethod.hpp")])
p("C09", "Perfect-gas states are thermodynamically consistent",
  "Completing conserved variables, building a state from primitive variables and reading density, velocity, pressure, temperature, speed of sound, Mach number and internal energy back are mutually consistent with the perfect-gas law for every admissible state and every heat-capacity ratio, scalar and vectorised alike, and converting forth and back reproduces the state. Isentropic pressure changes keep entropy, and masked-out vector lanes never contaminate valid ones.",
  ["inputs"], "all admissible densities, velocities, pressures, gamma, gas constants, ranks 1..3",
  "Tests use single literal states.",
  [I+"equations/PerfectGas.hpp", S+"equations/PerfectGas.cpp", I+"equations/EulerEquation.hpp", I+"CompleteFromCons.hpp"],
  [("CompleteFromCons/CompleteFromPrim", S+"equations/PerfectGas.cpp"), ("CompleteFromCons over patches", I+"CompleteFromCons.hpp")])
p("C10", "The exact gas-dynamics Riemann solver returns the entropy solution",
  "For any pair of perfect-gas states that does not open a vacuum, the sampled solution on the interface is the self-similar entropy solution: star pressure and velocity satisfy the shock jump or isentropic rarefaction relations on both sides, the sampled state belongs to the wave pattern at that speed, and mirrored data give mirrored solutions. The reported middle state and wave signals belong to the same solution.",
  ["inputs"], "all non-vacuum left/right states, pressure ratios over many decades, gamma, directions, ranks 1..3, sampling speeds",
  "The existing test prints one solution without checking it.",
  [S+"equations/perfect_gas/ExactRiemannSolver.hpp", I+"equations/perfect_gas/ExactRiemannSolver.hpp", I+"NewtonIteration.hpp"],
  [("SolveRiemannProblem, ComputeMiddleState", S+"equations/perfect_gas/ExactRiemannSolver.hpp"), ("NewtonIteration", I+"NewtonIteration.hpp")])
p("C11", "Shallow-water fluxes and exact Riemann solutions are correct",
  "The shallow-water flux equals (h u, h u^2 + g h^2/2, h u v) in the conserved variables, and the exact Riemann solver returns the entropy solution: the middle height and velocity satisfy the bore or rarefaction relations on both sides, and transonic waves are sampled correctly. Signal velocities bound all waves of the exact solution's left and right states.",
  ["inputs"], "all positive heights, momenta, gravities, both directions",
  "There is no shallow-water test.",
  [S+"equations/ShallowWater.cpp", I+"equations/ShallowWater.hpp", S+"equations/shallow_water"],
  [("ShallowWater::Flux", S+"equations/ShallowWater.cpp"), ("ExactRiemannSolver<ShallowWater>", S+"equations/ShallowWater.cpp")])
p("C12", "Approximate Riemann fluxes upwind, bound and keep states admissible",
  "The approximate Riemann fluxes for gas dynamics use signal speeds that enclose the outgoing acoustic waves of both states and any single shock between them, reduce to the one-sided physical flux when all signals point the same way, and keep density and pressure positive in a first-order update under a CFL number of one half (for the contact-resolving variant: of moderately varying data). The contact-resolving variant additionally keeps isolated stationary contact and shear waves exactly steady.",
  ["inputs"], "all admissible pairs of states, ranks 1..3, directions, gamma",
  "No test evaluates these fluxes on discontinuous data.",
  [S+"equations/perfect_gas/HllemMethod.hpp", S+"equations/perfect_gas/EinfeldtSignalVelocitiesImpl.hpp", I+"flux_method/HllMethod.hpp"],
  [("EinfeldtSignalVelocities", S+"equations/perfect_gas/EinfeldtSignalVelocitiesImpl.hpp"), ("Hllem::ComputeNumericFlux", S+"equations/perfect_gas/HllemMethod.hpp"), ("HllBase", I+"flux_method/HllMethod.hpp")])
p("C13", "Slope limiting and reconstruction are bounded and exact for linear data",
  "Every limited slope lies in the TVD region (zero at extrema, bounded by twice the smaller one-sided difference for the monotone limiters), is symmetric in its arguments, and reproduces linear data, with scalar and vectorised evaluation giving the same value. Second-order fluxes built from them reduce to the underlying first-order flux at vanishing slopes and follow the half-time-step predictor formula otherwise, and never create new extrema for scalar conservation laws under the CFL limit.",
  ["inputs"], "all slope pairs, stencils, time steps and limiters",
  "No existing test exercises the limiters.",
  [I+"flux_method/MusclHancockMethod.hpp", I+"flux_method/MusclHancockMethod2.hpp", I+"flux_method/Gradient.hpp", I+"flux_method/Reconstruct.hpp"],
  [("MinMod, VanLeer", I+"flux_method/MusclHancockMethod.hpp"), ("CentralDifferenceGradient, limiters", I+"flux_method/Gradient.hpp"), ("Reconstruction", I+"flux_method/Reconstruct.hpp")])
p("C14", "Scalar advection and Burgers fluxes follow the exact entropy solution",
  "The first-order upwind fluxes for linear advection and Burgers' equation equal the flux of the exact Riemann solution at the interface, including shocks, rarefactions and transonic fans, in both velocity signs and all directions. Updates with them obey the discrete maximum principle and conserve the transported quantity.",
  ["inputs", "histories"], "all scalar data, velocities, directions, CFL numbers up to one, step counts",
  "No test checks Burgers' fluxes or the maximum principle.",
  [S+"equations/Advection.cpp", S+"equations/Burgers.cpp", S+"equations/advection", S+"equations/burgers", I+"flux_method/GodunovMethod.hpp"],
  [("ExactRiemannSolver<Advection2d>", S+"equations/Advection.cpp"), ("ExactRiemannSolver<Burgers1d>", S+"equations/Burgers.cpp")])
p("C15", "Perfect-gas mixtures transport species and scalars with the gas",
  "For the multi-species perfect gas, completing conserved variables keeps densities, momentum, energy, species and passive scalars unchanged and derives pressure and speed of sound by the perfect-gas law; primitive/conserved conversions invert each other. Equal concentrations stay equal under every flux, the upwinding variant of the contact-resolving flux carries species and passive scalars with the mass flux from the upwind side, and with it or the HLL flux a first-order update keeps concentrations within the range of the neighbouring cells. Conversions to and from kinetic states keep the composition.",
  ["inputs", "configurations"], "all admissible mixtures, species counts, passive scalar counts, ranks, directions",
  "No test covers the mixture equation.",
  [I+"equations/PerfectGasMix.hpp", S+"equations/PerfectGasMix.cpp", S+"equations/perfect_gas_mix", S+"equations/perfect_gas/HllemMethod.hpp"],
  [("CompleteFromCons/Prim", S+"equations/PerfectGasMix.cpp"), ("Hllem with Larrouturou correction", S+"equations/perfect_gas/HllemMethod.hpp")])
p("C16", "Reacting-gas states complete consistently from conserved variables",
  "For the reacting ideal-gas mixture, the complete state derived from conserved variables keeps density, momentum, total energy and (normalised) species densities, and its temperature, pressure, heat capacity ratio and speed of sound are those of the mixture at that composition and internal energy. Setting a reactor from a state and completing from it round-trips, scalar and vectorised paths agree lane by lane, and masked-out lanes do not influence valid ones.",
  ["inputs"], "all admissible compositions, temperatures, densities, velocities, ranks 1..3",
  "Tests touch the reactor on a few literal compositions and never the equation's conversions.",
  [I+"equations/IdealGasMix.hpp", S+"equations/IdealGasMix.cpp", I+"CompleteFromCons.hpp"],
  [("IdealGasMix::CompleteFromReactor/SetReactorStateFromComplete", S+"equations/IdealGasMix.cpp")])
p("C17", "Reactor thermodynamics and composition accessors are consistent",
  "After any sequence of setter calls, the reactor's mass fractions are non-negative and sum to one, mole and mass fractions convert into each other by the species' molar masses, and density, temperature, pressure, internal energy, enthalpy and heat capacities satisfy the ideal-gas relations of the current composition. Setting internal energy, enthalpy, pressure or an isentropic pressure change yields the state for which the corresponding getter or invariant holds; invalid composition strings are rejected.",
  ["inputs", "histories"], "all compositions, temperatures, pressures and call sequences, scalar and vectorised",
  "Existing tests set two literal compositions at standard conditions.",
  [I+"equations/ideal_gas_mix/FlameMasterReactor.hpp", S+"equations/ideal_gas_mix/FlameMasterReactor.cpp"],
  [("SetMassFractions/SetMoleFractions/SetTemperature/SetInternalEnergy/...", S+"equations/ideal_gas_mix/FlameMasterReactor.cpp")])
p("C18", "Chemistry conserves mass, elements and energy over any time step",
  "Advancing the reactor by any time step keeps density, internal energy, total mass and the number of atoms of each element constant, keeps mass fractions non-negative and normalised (all of this up to the tolerances of the integrator and what the chemistry amplifies them to), and leaves every accessor consistent with the new state. Two consecutive steps agree with one step of the combined length, a zero step changes nothing, copies of a reactor evolve identically and independently, production rates conserve mass and elements, and a mixture of isomers with first-order reactions follows the exact solution.",
  ["inputs", "histories"], "all mixtures of the shipped mechanism, temperatures, pressures, step sizes and step sequences",
  "One existing test advances one mixture once and checks a coarse property.",
  [S+"equations/ideal_gas_mix/FlameMasterReactor.cpp", S+"equations/ideal_gas_mix/mechanism/Burke2012.cpp", S+"ode_solver/RadauSolver.cpp"],
  [("FlameMasterReactor::Advance", S+"equations/ideal_gas_mix/FlameMasterReactor.cpp"), ("ComputeProductionRates", S+"equations/ideal_gas_mix/mechanism/Burke2012.cpp")])
p("C19", "The stiff ODE solver reaches the end time within its tolerances",
  "Integrating any smooth, possibly stiff system over any interval returns the solution at the end of that interval within the configured tolerances, independently of whether a Jacobian or feedback function is supplied. The feedback sees a strictly advancing, complete time history ending at the final time, and copying or cloning a solver preserves its configuration and solves the same problems identically.",
  ["inputs", "configurations"], "all linear systems with eigenvalues over many decades, non-linear problems with known solutions, intervals, tolerances",
  "The ODE solver has no test of its own.",
  [I+"ode_solver/RadauSolver.hpp", I+"ode_solver/OdeSolver.hpp", S+"ode_solver/RadauSolver.cpp", S+"ode_solver/OdeSolverFactory.cpp"],
  [("RadauSolver::integrate", S+"ode_solver/RadauSolver.cpp"), ("RADAU5/RADAUP", S+"ode_solver/radau.f"), ("OdeSolver value semantics", I+"ode_solver/OdeSolver.hpp")])
p("C20", "Cut-cell stabilised fluxes are the prescribed convex combinations",
  "A face of a cut-cell patch is split without gaps into the parts which are unshielded, shielded from the left, from the right and from both sides, and the stabilised face flux is the area-weighted combination of the first three, where each shielded part blends the regular face flux with the boundary flux by the relative centre distance clamped to [0, 1]. Faces between regular cells keep their regular flux unchanged, equal fluxes stay equal where no part is doubly shielded, and every component and every face of the patch is treated alike, independent of vector width. Embedded walls are impermeable: the reference state of a cut cell is the Riemann solution at the wall (no normal velocity, tangential velocity kept), boundary fluxes are the flux of that state with the current wall pressure, regular fluxes and the stable time step of open faces are those of the base method.",
  ["inputs"], "all face fractions, shielding fractions, centre distances, fluxes, patch sizes and directions, ranks 2 and 3",
  "There is no cut-cell test in the stable suite.",
  [I+"cutcell_method/KbnStabilisation.hpp", S+"cutcell_method/KbnStabilisation.cpp", I+"cutcell_method/MyStabilisation.hpp", S+"cutcell_method/MyStabilisation.cpp", I+"CutCellData.hpp", S+"CutCellData.cpp"],
  [("ComputeStableFluxComponents", S+"cutcell_method/KbnStabilisation.cpp"), ("MyStab_ComputeStableFluxComponents", S+"cutcell_method/MyStabilisation.cpp"), ("CutCellData accessors", S+"CutCellData.cpp")])
p("C21", "Cut-cell gradients and limiters are exact for linear data and bounded",
  "Unlimited gradients on cut-cell patches reproduce linear fields (of conserved or primitive variables) exactly wherever enough fluid neighbours exist, vanish for constant fields and in covered cells, and never depend on values in covered cells. The limiters return a fraction in [0, 1] of each slope such that the reconstruction at the centroid of a fluid neighbour never leaves the range of the cell and this neighbour, and cut off no more than that requires. States and slopes reconstructed on h-grids at regular, shielded and embedded-boundary parts of faces are those of the linear field at the right points (mirrored at the wall behind it), and integrals over cells are volume-weighted means.",
  ["inputs"], "all linear, constant and arbitrary data; plane, wedge-shaped, irregular and stair-shaped walls of any orientation in rank 2; all cell sizes",
  "There is no test for these components.",
  [I+"cutcell_method/AnyMdLimiter.hpp", S+"cutcell_method/AnyMdLimiter.cpp", I+"cutcell_method/MdGradients.hpp", I+"cutcell_method/HGridReconstruction.hpp", S+"CutCellData.cpp", I+"flux_method/Gradient.hpp"],
  [("LinearOptimizationLimiter", S+"cutcell_method/AnyMdLimiter.cpp"), ("ComputeGradients", I+"cutcell_method/MdGradients.hpp"), ("HGridReconstruction", I+"cutcell_method/HGridReconstruction.hpp")])
p("C22", "Signed distances of geometries are correct and compose",
  "The distance of a point to a half space, polygon, cone or union of geometries has the sign of its side and the magnitude of the true Euclidean distance to the boundary (for a union: the largest member distance). Expanded tubes (that begin along +y and end along -y of their first and last planes) are positive exactly inside, and point files are read back completely. Inverting negates, rotating about a point or axis commutes with rotating the point, and type-erased copies give the same distances.",
  ["inputs"], "all points, polygons (convex or not, any orientation), normals, offsets, angles, tube files",
  "The polygon tests check a handful of points of two shapes.",
  [I+"geometry/Halfspace.hpp", I+"geometry/Polygon.hpp", I+"geometry/Cone.hpp", I+"geometry/ExpandTube.hpp", I+"geometry/Invert.hpp", I+"geometry/RotateAxis.hpp", I+"geometry/RotateAroundPoint.hpp", I+"geometry/PolymorphicGeometry.hpp", S+"geometry"],
  [("Polygon::ComputeDistanceTo", S+"geometry/Polygon.cpp"), ("ConeIF", S+"geometry/Cone.cpp"), ("ExpandTube", S+"geometry/ExpandTube.cpp")])
p("C23", "Operator splitting applies every operator for exactly the full time step",
  "Each splitting method, for any number of operators it accepts, invokes the operators in its documented order such that the time increments of each operator sum to the full step, symmetric methods are palindromic, and the first error stops the sequence immediately and is returned unchanged. Composing real flows gives the exact result for commuting flows and the documented order of accuracy otherwise.",
  ["inputs", "fault_sequences"], "all operator counts, time steps, error positions and values",
  "No test covers splitting methods.",
  [I+"split_method/SplittingMethod.hpp", I+"split_method/GodunovSplitting.hpp", I+"split_method/StrangSplitting.hpp", I+"split_method/StrangSplittingLumped.hpp", S+"split_method"],
  [("SplittingMethod::Advance", I+"split_method/SplittingMethod.hpp"), ("StrangSplitting", S+"split_method/StrangSplitting.cpp")])
p("C24", "Hierarchy integration advances every level by exactly the coarse step",
  "Advancing a refined hierarchy, with or without subcycling, takes each level through steps that sum to exactly the coarse time step in the documented order (ghost filling, fluxes, update, flux correction, coarsening), and applies each split direction and source term for the full step. The composite mass of a periodic conservative problem stays constant, coarse data are the averages of finer data, and levels covering the domain reproduce the sweeps of a single grid. When any level (on any rank) finds its step too large, nothing further is computed or published on that and coarser levels and the largest stable step is returned: for that level without subcycling, rescaled to the coarsest level with subcycling. The stable step reported for a hierarchy is the minimum over levels scaled by the refinement ratios.",
  ["histories", "fault_sequences", "configurations"], "all level counts, refinement ratios, split orders, cycle parities, positions of a failing step",
  "The generic solvers are templates that no stable test instantiates.",
  [I+"solver/DimensionalSplitLevelIntegrator.hpp", I+"solver/NoSubcycleSolver.hpp", I+"solver/SubcycleFineFirstSolver.hpp", I+"solver/SplitSystemSourceLevelIntegrator.hpp", I+"solver/SolverFacade.hpp", I+"TimeStepError.hpp"],
  [("AdvanceLevelNonRecursively", I+"solver/DimensionalSplitLevelIntegrator.hpp"), ("SubcycleFineFirstSolver::AdvanceLevel", I+"solver/SubcycleFineFirstSolver.hpp")])
p("C25", "The run driver hits output and final times and recovers from failed steps",
  "A run advances time monotonically with steps never exceeding the CFL fraction of the stable step, never steps over a requested output time or the final time, stops at the final time or at the cycle limit, and invokes the output exactly once for every state it asks for. A step reported as too large is rolled back to the state before it and retried immediately with a smaller step, without losing or repeating simulated time or output.",
  ["histories", "fault_sequences", "configurations"], "all stable-dt sequences, CFL numbers, final times, cycle limits, output schedules and failing steps",
  "No test runs the driver.",
  [I+"RunSimulation.hpp", S+"RunSimulation.cpp"],
  [("RunSimulation", I+"RunSimulation.hpp"), ("NextOutputTime handling", S+"RunSimulation.cpp")])
p("C26", "Output schedules fire exactly at their cycles and times",
  "An output with frequencies and intervals fires at a grid state exactly if the time is zero, the cycle is a multiple of a frequency or the time is a multiple of an interval within the stated tolerance; the next output time lies strictly after now, at most one interval away, at a multiple of the interval within tolerance, and never at the multiple that the current time already counts as. A combination of outputs fires and runs exactly its members that fire, and its next time is the earliest of theirs.",
  ["inputs", "histories"], "all frequency and interval lists, times, cycles and member combinations",
  "No test covers outputs.",
  [I+"output/OutputAtFrequencyOrInterval.hpp", I+"output/MultipleOutputs.hpp", I+"output/OutputFactory.hpp", I+"output/AsOutput.hpp"],
  [("OutputAtFrequencyOrInterval", I+"output/OutputAtFrequencyOrInterval.hpp"), ("MultipleOutputs", I+"output/MultipleOutputs.hpp")])
p("C27", "Configuration values arrive in the program as written in the input",
  "A value written in an options map, input file or behind it on the command line is returned unchanged with the requested type, on every rank; nested option groups are found by name, missing keys yield the default and values of the wrong type are rejected with an error rather than silently replaced by the default. Input files that fail, do not exist or come with unknown command line options are reported instead of yielding options. Run, log and input-file options read from such a map are exactly the given ones.",
  ["inputs"], "all option maps with nested dictionaries, numeric, string, list and boolean values and missing keys",
  "No stable test covers option parsing.",
  [I+"ext/ProgramOptions.hpp", S+"ext/ProgramOptions.cpp", S+"RunSimulation.cpp"],
  [("GetOptionOr/GetOptions/ToMap", I+"ext/ProgramOptions.hpp"), ("RunOptions", I+"RunSimulation.hpp")])
p("C28", "Counters report exact statistics of what was recorded",
  "After any history of recorded values, a counter's count, sum, minimum, maximum, mean, variance and standard deviation equal those of the multiset recorded since the last reset, names address independent counters that stay in place, and gathered statistics contain each counter once with its calls, extremes and mean; over several ranks the root gets the extremes over all ranks and the mean and spread of the ranks' means, whatever the order in which the ranks created their counters. Printed tables show these numbers in the requested unit. A timer contributes exactly one non-negative duration to its counter per lifetime, however it is moved.",
  ["histories"], "all sequences of add, reset, lookup, gather, timer start, move and stop",
  "The counter tests are not part of the stable suite and use fixed sequences.",
  [I+"counter/Counter.hpp", I+"counter/CounterRegistry.hpp", I+"counter/Timer.hpp", S+"counter"],
  [("Counter", S+"counter/Counter.cpp"), ("CounterRegistry", S+"counter/CounterRegistry.cpp"), ("Timer", S+"counter/Timer.cpp")])
p("C29", "Refinement tagging marks exactly the requested cells",
  "Gradient-based tagging marks a cell exactly if the relative jump of a monitored quantity to a direct neighbour exceeds its tolerance (with cut cells only along axes where neither the cell nor its two neighbours are covered), scalar or vectorised, cut-cell tagging marks exactly the partially filled cells, and tag buffering marks every cell within the buffer width of a tagged cell and no cell farther away. Existing tags are never removed and nothing outside of the tag region is written.",
  ["inputs"], "all tag patterns, fields, tolerances, buffer widths, patch shapes, ranks 1..3",
  "No test covers tagging.",
  [I+"tagging_method/GradientDetector.hpp", I+"tagging_method/TagBuffer.hpp", I+"tagging_method/TagCutCells.hpp", S+"tagging_method"],
  [("GradientDetector", I+"tagging_method/GradientDetector.hpp"), ("TagBuffer", S+"tagging_method/TagBuffer.cpp"), ("TagCutCells", S+"tagging_method/TagCutCells.cpp")])
p("C30", "Rotation, reflection and wall boundaries preserve the physics of a state",
  "For the perfect gas, its mixture and the reacting ideal gas in every rank: rotating or reflecting a state changes only its momentum (velocity), by the corresponding isometry for any unit normal, and leaves density, energy, species, passive scalars and all other variables alone, also if source and result are the same object; rotating there and back or reflecting twice is the identity, and reflecting does not depend on the sign of the normal. The rotation between two directions maps the first onto the second and is orthogonal with determinant one (minus the identity is used for exactly opposite directions in 3D). The physical flux is covariant under rotations and completing a state commutes with them. Filling a reflective boundary sets each ghost cell to the reflection of the interior cell mirrored at the wall face, for both sides, all directions and any width, and changes no other cell.",
  ["inputs"], "all states, rotation axes and angles, wall sides, directions, fill widths, ranks 1..3",
  "No test covers them.",
  [I+"boundary_condition/ReflectiveBoundary.hpp", S+"boundary_condition/ReflectiveBoundary.cpp", S+"equations/PerfectGas.cpp", I+"ext/Eigen.hpp"],
  [("Rotate/Reflect", S+"equations/PerfectGas.cpp"), ("ReflectiveBoundary::FillBoundary", I+"boundary_condition/ReflectiveBoundary.hpp")])
p("C31", "A complete solver run conserves mass, momentum, energy and symmetry",
  "Running the complete split solver (stable-step selection, ghost cells, fluxes, conservative update, state completion, run driver) on a periodic box conserves the totals of all conserved quantities to round-off over any number of steps; between reflecting walls mass, energy, species and tangential momentum are conserved. Published states stay finite and admissible with their derived variables consistent, uniform flow stays uniform, shifted, mirrored and axis-swapped data evolve into the shifted, mirrored and axis-swapped result, plane data stay plane, all execution back-ends agree, and the wave pattern of a Riemann problem converges towards its exact entropy solution. This holds for every flux method of every equation and for every splitting, for moderately varying data.",
  ["histories", "configurations"], "all admissible initial data, grid sizes, flux methods, splitting methods, CFL numbers and step counts",
  "No test runs a complete solver.",
  [I+"solver/DimensionalSplitLevelIntegrator.hpp", I+"solver/NoSubcycleSolver.hpp", I+"RunSimulation.hpp", I+"HyperbolicMethod.hpp", I+"CompleteFromCons.hpp", S+"HyperbolicPatchIntegrator.cpp"],
  [("NoSubcycleSolver/DimensionalSplitLevelIntegrator", I+"solver/NoSubcycleSolver.hpp")])
p("C32", "Prescribed-massflow inflow states deliver the required mass flow",
  "For any interior state and feasible required mass flow (up to the sonic point of the rarefaction or behind a shock), the state computed for the boundary carries that mass flow through the given relative area, is connected to the interior state by an admissible wave (entropy-satisfying left shock or rarefaction), keeps tangential velocity, species and passive scalars, and has consistent derived variables. Unattainable requests are reported as errors instead of returning a wrong state. Given the state behind such a wave and the pressure in front of it, the state in front is recovered.",
  ["inputs"], "all interior states, required mass flows, areas, gamma, ranks 1..3",
  "No test covers it.",
  [I+"equations/RequireMassflow.hpp", S+"equations/PerfectGas.cpp"],
  [("RequireMassflow_SolveExactRiemannProblem", I+"equations/RequireMassflow.hpp")])
p("C33", "Type-erased strategies behave as independent values",
  "Copying a type-erased initial condition, boundary condition, tagging method, flux method, time integrator, reconstruction, splitting method, geometry, limiter or ODE solver produces an independent object with the same behaviour: every call is forwarded exactly once with unchanged arguments, results and errors, changes to the copy's state do not affect the original, moving transfers the behaviour, empty objects do nothing and can be copied, casts find exactly the stored type, and every stored strategy is destroyed exactly once. function_ref forwards to its callable without copying arguments. This holds for any history of copies, moves, assignments, destructions and calls.",
  ["histories"], "all sequences of construct, copy, move, assign, destroy and call operations",
  "No test copies these objects after use.",
  [I+"AnyInitialData.hpp", I+"AnyBoundaryCondition.hpp", I+"AnyTaggingMethod.hpp", I+"split_method/SplittingMethod.hpp", I+"geometry/PolymorphicGeometry.hpp", I+"cutcell_method/AnyMdLimiter.hpp", I+"HyperbolicMethod.hpp", I+"ode_solver/OdeSolver.hpp", I+"core/function_ref.hpp"],
  [("AnyInitialData", I+"AnyInitialData.hpp"), ("AnyBoundaryCondition", I+"AnyBoundaryCondition.hpp"), ("AnyTaggingMethod", I+"AnyTaggingMethod.hpp")])
open("properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P), max(len(x["title"]) for x in P))
