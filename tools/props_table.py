prop("C02", "Every converged step satisfies the force balance",
     "When a step is reported as solved, the stresses, pressure and density written to the output satisfy the static force balance in x and z at every internal velocity point, to the requested solver tolerance. "
     "This holds for any number of phases, geometry, viscosity contrast, gravity, domain offset, boundary type, linear solver, linearisation and unit system, for viscous, power-law, viscoelastic, compressible and viscoplastic bodies; and the viscous stresses written are twice the written viscosity times the strain rate of the written velocities.",
     ["inputs", "configurations", "histories"], "every model (phases, geometry, contrast, gravity, domain, boundary conditions), every solver configuration, every step of a history",
     "no output field is ever compared with the equations, so an assembly, residual or boundary-row error that still converges in the same number of iterations passes.",
     ["MDLIB/StokesAssemblyDecoupled.c", "MDLIB/StokesRoutines.c", "MDLIB/Solvers.c", "MDLIB/RheologyDensity.c"],
     [("momentum assembly and residual", "StokesAssemblyDecoupled.c: Xmomentum_/Zmomentum_InnerNodesDecoupled, X/Zjacobian_InnerNodesDecoupled3"), ("convergence test", "StokesRoutines.c: EvaluateStokesResidualDecoupled"), ("solve", "Solvers.c: KSPStokesDecoupled, KillerSolver")],
     "property-based testing: generated Stokes problems, force balance recomputed from the output", "float32 output limits the resolution to about 1e-6 of the local terms; trusts the staggered-grid meaning of the output fields")
prop("C03", "Mass is conserved: divergence-free, or matched by pressure and density",
     "Without compressibility the velocity of every converged step is divergence-free in every cell, through any history of advection and reseeding. With compressibility the divergence equals minus compressibility times the pressure rate, so a uniformly compressed body follows the closed-form pressure and (for the exponential density law) density path, and new markers carry the density of their surroundings.",
     ["inputs", "configurations", "histories"], "every multi-phase model, volume-change rate, step size and number of steps, with and without elasticity, advection, density coupling",
     "they never look at divergence, pressure or density.",
     ["MDLIB/StokesAssemblyDecoupled.c", "MDLIB/Solvers.c", "MDLIB/RheologyDensity.c", "MDLIB/ParticleRoutines.c", "MDLIB/FD_Jacobian.c"],
     [("continuity residual", "StokesAssemblyDecoupled.c: Continuity_InnerNodesDecoupled"), ("bulk response", "RheologyDensity.c: EvaluateDensity, UpdateDensity"), ("marker density", "ParticleRoutines.c: AssignMarkerProperties")],
     "property-based testing: divergence oracle and closed-form compression histories", "steps whose own reported residuals miss the requested tolerances are not judged; float32 output")
prop("C04", "Prescribed velocity, stress and periodic boundary conditions are honoured",
     "Normal and tangential velocities prescribed on any side are reproduced by the solution at every boundary point, a shear-stress-free side with uniform normal velocity carries no shear stress, a periodic pair of sides carries identical velocities and shear stress, and a prescribed normal stress is balanced by the body behind it. "
     "The built-in pure-shear and simple-shear conditions impose the background strain rate of the input file on any domain, centred or not.",
     ["inputs", "configurations", "histories"], "every combination of conditions on the four sides, every profile along a side, every multi-phase body, several steps",
     "they use two fixed centred boxes and never look at a boundary value.",
     ["MDLIB/Setup.c", "MDLIB/StokesAssemblyDecoupled.c", "MDLIB/StokesRoutines.c", "MDLIB/GridRoutines.c"],
     [("boundary set-up", "Setup.c: SetBCs, SetPureShearBCVx.."), ("boundary rows", "StokesAssemblyDecoupled.c"), ("ghost velocities", "StokesRoutines.c: ExtractSolutions*, GridRoutines.c: ApplyBC")],
     "property-based testing: generated boundary conditions compared with output velocities and stresses", "float32 output; normal-stress conditions only with Picard linearisation, which is the only one that implements them")
prop("C05", "Creep obeys the flow laws of the input file",
     "In every cell and vertex filled by one phase, the viscosity, the stress and the strain rate of each mechanism written to the output solve the combination of constant, power-law, diffusion, grain-boundary-sliding and Peierls creep selected for the phase, at the local temperature, pressure, grain size and melt fraction, with the parameters of the flow-law data base, and the viscosity stays within the limits of the input file.",
     ["inputs", "configurations"], "every flow law of the data base, every combination of mechanisms, temperature, pressure, strain rate, grain size, melt fraction, with and without elasticity",
     "two user-given viscosities are all they use; the data base and the local iterations are never evaluated against the laws.",
     ["MDLIB/RheologyDensity.c", "MDLIB/FlowLaws.c", "MDLIB/InputOutput.c"],
     [("local iterations", "RheologyDensity.c: ViscosityConcise"), ("data base", "FlowLaws.c: ReadDataPowerLaw, ReadDataLinear, ReadDataGBS, ReadDataExponential")],
     "property-based testing: generated phases and fields against a reference solver of the flow laws", "the parameters of the data base at the pinned commit are taken as right; Peierls creep alone above its temperature limit is undefined and not judged")
prop("C06", "Elastic stress builds up, relaxes and rotates as in a Maxwell body",
     "With elasticity, the deviatoric stress of every cell, vertex and marker follows the Maxwell law step after step: it grows from the initial stress given by the user with the shear modulus of its phase, relaxes by the creep of its phase, and (if stress rotation is on) is turned with the rotation of the flow; stress is carried along by the markers, also by newly created ones.",
     ["inputs", "configurations", "histories"], "every velocity gradient, initial stress, step size, number of steps, rotation option, creep law, with and without advection; every multi-phase body with its own initial stress per phase",
     "no test runs elasticity for more than one step, none has initial stress or rotation.",
     ["MDLIB/RheologyParticles.c", "MDLIB/RheologyDensity.c", "MDLIB/ParticleRoutines.c", "MDLIB/Setup.c"],
     [("marker stress", "RheologyParticles.c: UpdateParticleStress"), ("visco-elastic viscosity", "RheologyDensity.c: ViscosityConcise, ShearModCompExpGrid"), ("new markers", "ParticleRoutines.c: AssignMarkerProperties")],
     "property-based testing: Maxwell recursion as a reference model over histories", "homogeneous bodies for histories; stresses stay below the shear modulus; with direct_neighbour = 0 new markers take the unrotated grid stress, which is judged only without rotation")
prop("C07", "Plastic yielding keeps stresses on or below the yield surface of the phase",
     "A plastic phase never carries more stress than cohesion x cos(friction angle) + pressure x sin(friction angle), capped by its stress limit, plus the viscoplastic overstress; the plastic strain rate, overstress and (with dilation) the plastic divergence and pressure written are those of the return mapping; cohesion and friction soften with the accumulated plastic strain between the two given strains, linearly or smoothly, and cohesion scales with the marker noise; phases without plasticity never yield.",
     ["inputs", "configurations", "histories"], "every cohesion, friction, stress limit, viscoplastic viscosity, dilation angle, confining pressure, creep law, with and without elasticity; every history of softening",
     "no test makes a body yield or soften.",
     ["MDLIB/RheologyDensity.c", "MDLIB/RheologyParticles.c", "MDLIB/InputOutput.c"],
     [("return mapping", "RheologyDensity.c: ViscosityConcise"), ("softening", "RheologyDensity.c: Softening, CohesionFrictionDilationGrid"), ("plastic strain", "RheologyParticles.c: AccumulatedStrainII")],
     "property-based testing: return mapping and softening recursion as reference models", "confined bodies (tension falls back to a minimum stress and is not judged); steps the run itself reports as not converged are not judged in histories; dilation only with homogeneous bodies")
prop("C08", "Density follows the equation of state of each phase",
     "In every cell filled by one phase the density written to the output is that of the density model selected for the phase (constant, linear or exponential in temperature and pressure, linear in composition, melt-weighted, or read from a phase diagram) at the temperature, pressure, composition and melt fraction of that cell; a phase diagram is interpolated bilinearly and held at its edges; in mixed cells it lies between those of the phases present; the lithostatic pressure is the weight of the column above.",
     ["inputs", "configurations", "histories"], "every density model and parameter set, every temperature, pressure, composition and melt field, every point of a phase diagram and beyond its edges",
     "they run with constant density only and never look at it.",
     ["MDLIB/RheologyDensity.c", "MDLIB/RheologyParticles.c", "MDLIB/InputOutput.c", "MDLIB/FlowLaws.c"],
     [("density models", "RheologyDensity.c: EvaluateDensity, UpdateDensity"), ("phase diagrams", "RheologyDensity.c: Interpolate2Ddata"), ("lithostatic pressure", "GridRoutines.c: ComputeLithostaticPressure")],
     "property-based testing: closed-form equations of state and generated phase diagrams as oracle", "phase diagrams are small generated files; float32 output")
prop("C12", "Heat conduction conserves energy and matches its boundary conditions",
     "Every thermal step is the implicit heat balance of each cell: storage (density x heat capacity x temperature change / step) equals the conduction through its four faces plus radiogenic heat, with each side at the prescribed temperature profile, insulated, with the prescribed bottom heat flux, or periodic. Through any number of steps a body follows the reference solution of the heat equation; the initial cooling stage and the thermal perturbation do what the input file says.",
     ["inputs", "configurations", "histories"], "every multi-phase body, conductivity, heat capacity, heat production, step size, combination of side conditions, unit system and subgrid diffusion option",
     "no test solves the heat equation.",
     ["MDLIB/ThermalRoutines.c", "MDLIB/Main_DOODZ.c", "MDLIB/Setup.c", "MDLIB/ParticleRoutines.c", "MDLIB/RheologyParticles.c"],
     [("heat equation", "ThermalRoutines.c: EnergyDirectSolve"), ("initial cooling", "ThermalRoutines.c: ThermalSteps, SetThermalPert"), ("marker temperature", "RheologyParticles.c: UpdateParticleEnergy"), ("side conditions", "Setup.c: SetBCs")],
     "property-based testing: heat balance recomputed from the output, and an independent solver for histories", "heat flux values are only implemented (and only judged) at the bottom; histories allow 3 % of the temperature range for marker smoothing")
prop("C26", "Melting follows the solidus, liquidus, kinetics and latent heat of the phase",
     "With melting on, the melt fraction of every cell filled by one phase is that of the melt model of the phase at its temperature and pressure (0 below the solidus, 1 above the liquidus), approached with the kinetic time of the phase; latent heat enters the effective heat capacity and thermal expansion; fractions stay within 0 and 1. With melting off the porosity given by the user is kept.",
     ["inputs", "configurations", "histories"], "every melt model, temperature, pressure, melt kinetics time, step size and unit system, over several steps",
     "no test turns melting on.",
     ["MDLIB/MeltingRoutines.c", "MDLIB/RheologyParticles.c", "MDLIB/Main_DOODZ.c"],
     [("melt models", "MeltingRoutines.c: PartialMelting, MeltFractionGrid"), ("latent heat", "MeltingRoutines.c: UpdateAlphaCp"), ("marker melt fraction", "RheologyParticles.c: UpdateParticlePhi")],
     "property-based testing: closed-form melt models, kinetics recursion", "the solidus parametrisations cited in the code are taken as specification; float32 output")
prop("C01", "A run continued from a breakpoint gives the same results as an uninterrupted one",
     "A run stopped after any step and continued from its breakpoint file (istart, irestart = 1) produces the same output fields, markers, surface, time and time series as the run that was never interrupted, for any combination of the physics that the input file can switch on: elasticity, plasticity, thermal and chemical diffusion, melting, free surface, anisotropy, finite strain, tracking, periodic sides, adaptive steps.",
     ["crash points", "histories", "configurations"], "every combination of options, every history, every step at which the run is stopped",
     "no test restarts a run.",
     ["MDLIB/InputOutput.c", "MDLIB/Main_DOODZ.c", "MDLIB/MemoryAllocFree.c", "MDLIB/ParticleRoutines.c", "MDLIB/FreeSurface.c"],
     [("breakpoints", "InputOutput.c: MakeBreakpointParticles, LoadBreakpointParticles"), ("restart branch", "Main_DOODZ.c: irestart")],
     "property-based testing: uninterrupted and restarted runs of the same generated history compared (differential)", "differences at the level of round-off are allowed; histories that amplify a change of code units and of 1e-8 in the step are not judged")
prop("C20", "Results do not depend on uninitialised memory or on the number of threads",
     "The same executable with the same input gives the same output, bit for bit, whatever the memory it is given contained before; and the same output up to round-off, with the same markers, for any number of OpenMP threads. It gives a result in all of these cases or in none.",
     ["schedules", "inputs", "configurations"], "every combination of options, every history, every content of uninitialised memory, every thread count and schedule",
     "each test runs once, with memory that happens to be zero, and compares one number with a wide tolerance.",
     ["MDLIB/Main_DOODZ.c", "MDLIB/MemoryAllocFree.c", "MDLIB/StokesAssemblyDecoupled.c", "MDLIB/ParticleRoutines.c", "MDLIB/RheologyDensity.c", "MDLIB/AdvectionRoutines.c", "MDLIB/InputOutput.c"],
     [("parallel loops", "ParticleRoutines.c: P2Mastah, CountPartCell; RheologyDensity.c: NonNewtonianViscosityGrid; StokesAssemblyDecoupled.c"), ("allocation", "MemoryAllocFree.c")],
     "property-based testing: differential runs of generated histories with two memory patterns, and with several thread counts", "schedules are those of the machine")
prop("C25", "No memory error or undefined behaviour on any valid input",
     "A run, or a restarted run, with any valid combination of options, grid size, markers per cell, phases, boundary conditions and callbacks never reads or writes outside its arrays, uses freed memory, overflows an integer or divides by an integer zero; it ends with its results or with an explicit message.",
     ["inputs", "configurations", "histories"], "every combination of options, every grid size, every history with a restart",
     "tests run without sanitizers and with three fixed inputs.",
     ["MDLIB/Main_DOODZ.c", "MDLIB/ParticleRoutines.c", "MDLIB/FreeSurface.c", "MDLIB/RheologyDensity.c", "MDLIB/AdvectionRoutines.c", "MDLIB/InputOutput.c", "MDLIB/StokesAssemblyDecoupled.c", "MDLIB/ThermalRoutines.c", "MDLIB/ChemicalRoutines.c"],
     [("grid and marker arrays", "MemoryAllocFree.c: GridAlloc, PartAlloc and every loop over them")],
     "fuzzing: generated histories run under AddressSanitizer and UndefinedBehaviorSanitizer", "floating-point division by zero is not an error; leaks are not judged; one thread")
prop("C09", "Results do not depend on the choice of code units",
     "The scales L, V, eta and T of the input file only set the internal units: with any other positive choice, and with the absolute solver tolerances expressed in the new units, the same model gives the same fields, markers, surface and time series in physical units at every step, up to solver tolerance and round-off.",
     ["inputs", "configurations", "histories"], "every model built from any combination of features (rheologies, thermal, chemical, melting, anisotropy, free surface, advection, reseeding, compressibility), any four scales",
     "each test uses a single set of scales, so a quantity used with the wrong dimension is invisible.",
     ["MDLIB/InputOutput.c", "MDLIB/Main_DOODZ.c", "MDLIB/RheologyDensity.c", "MDLIB/RheologyParticles.c", "MDLIB/ThermalRoutines.c", "MDLIB/HDF5Output.c", "MDLIB/ParticleRoutines.c"],
     [("scaling of input", "InputOutput.c: ReadInputFile, ScaleMe"), ("scaling of output", "HDF5Output.c: WriteOutputHDF5, WriteOutputHDF5Particles"), ("dimensional constants", "RheologyDensity.c, FlowLaws.c")],
     "property-based testing: metamorphic relation between runs in different units", "histories that amplify a relative perturbation of 1e-8, and steps that did not converge, are not judged")
prop("C10", "A mirrored model gives the mirrored result, a transposed one the transposed",
     "Nothing in the code prefers a direction: reflecting a model in x (box, bodies, fields, side conditions, surface, fabric, sense of shear) reflects every written field of every step; and without gravity, surface and simple shear, exchanging the two axes of a model exchanges them in the result.",
     ["inputs", "configurations", "histories"], "every model built from any combination of features, asymmetric bodies, boxes that are not centred, periodic sides, several steps with advection",
     "no test compares a model with its image, so a wrong neighbour, sign or one-sided treatment of a boundary on one side is invisible.",
     ["MDLIB/StokesAssemblyDecoupled.c", "MDLIB/ParticleRoutines.c", "MDLIB/AdvectionRoutines.c", "MDLIB/ThermalRoutines.c", "MDLIB/RheologyParticles.c", "MDLIB/FreeSurface.c", "MDLIB/ParticleReseeding.c"],
     [("stencils", "StokesAssemblyDecoupled.c, ThermalRoutines.c, ChemicalRoutines.c"), ("interpolation", "ParticleRoutines.c: P2Mastah, V2P"), ("surface", "FreeSurface.c"), ("advection", "AdvectionRoutines.c: RogerGuntherII, PureShearALE")],
     "property-based testing: metamorphic relation between a run and its image", "histories that amplify a relative perturbation of 1e-8, and steps that did not converge, are not judged; markers on the limit between two cells are avoided")
prop("C11", "Markers follow the flow and no cell is left without markers",
     "At the start every cell holds its Nx_part by Nz_part regular markers (moved by at most a tenth of their spacing with initial_noise) with the phase the user callback gives at their position, none above the free surface. In every step each marker moves along the velocity of the solution by fourth-order Runge-Kutta (bilinear, or the conservative interpolation when requested), wraps around on periodic sides, is dropped when it leaves the box, and otherwise keeps its identity and phase. With reseeding on, no cell (no quarter cell in mode 1) is left without markers and new markers take a phase found next to them; with reseeding off none appear.",
     ["inputs", "configurations", "histories"], "every flow (several phases, gravity, compressibility, free surface, periodic sides), step size, number of steps, both reseeding modes, both velocity interpolations",
     "they run without advection.",
     ["MDLIB/AdvectionRoutines.c", "MDLIB/ParticleRoutines.c", "MDLIB/ParticleReseeding.c", "MDLIB/Setup.c"],
     [("advection", "AdvectionRoutines.c: RogerGuntherII, V2P in ParticleRoutines.c"), ("initial layout", "ParticleRoutines.c: PutPartInBox; Setup.c: SetParticles"), ("reseeding", "ParticleRoutines.c: CountPartCell; ParticleReseeding.c")],
     "property-based testing: marker histories recomputed from the written velocities", "paths within three cells of the free surface are not compared; no moving boxes; inflow of less than 0.7 cells per step")
prop("C22", "Accumulated strains and the deformation gradient are those of the marker paths",
     "The strain of each deformation mechanism (elastic, plastic, power-law, linear, exponential, grain-boundary sliding) and the total strain written for a cell are the time integrals, along the paths of its markers, of the strain-rate invariants written for every step, and with finite_strain the deformation gradient is that of the velocity field, F_new = (I + dt grad v) F_old from the initial one given by the user. Strains never decrease along a path, start at zero and are carried along by advection.",
     ["inputs", "configurations", "histories"], "every rheology, flow, number of steps and step size, initial deformation gradient",
     "they take one step without advection and never look at strains.",
     ["MDLIB/RheologyParticles.c", "MDLIB/ParticleRoutines.c", "MDLIB/HDF5Output.c", "MDLIB/Main_DOODZ.c"],
     [("strains", "RheologyParticles.c: AccumulatedStrainII"), ("deformation gradient", "RheologyParticles.c: DeformationGradient"), ("output", "HDF5Output.c: WriteOutputHDF5")],
     "property-based testing: closed-form histories of homogeneous bodies, path integrals for heterogeneous ones", "heterogeneous bodies are judged by enclosure between the markers of a cell and its neighbours; float32 output")
prop("C13", "Shear, radiogenic and adiabatic heat warm the rock by the stated amounts",
     "In a body that conducts next to no heat, each step warms a one-phase cell by step / (density x heat capacity) times the sum of the heat production Qr of its phase, with shear_heating the dissipation (stress times the non-elastic part of the strain rate: viscous and plastic, never elastic), with adiab_heating = 1 thermal expansion x temperature x vertical velocity x gravity x density, with adiab_heating = 2 thermal expansion x temperature x pressure rate; sources that are off contribute nothing.",
     ["inputs", "configurations", "histories"], "every rheology (viscous, power law, data base, viscoplastic, viscoelastic), flow, compression, step size, combination of heat sources, code units",
     "no test turns on a heat source.",
     ["MDLIB/ThermalRoutines.c", "MDLIB/RheologyDensity.c", "MDLIB/Main_DOODZ.c", "MDLIB/RheologyParticles.c"],
     [("heat sources", "ThermalRoutines.c: EnergyDirectSolve"), ("dissipation", "RheologyDensity.c: ViscosityConcise (Wdiss)"), ("thermal step", "Main_DOODZ.c")],
     "property-based testing: heat budget recomputed from stresses, rates, velocities and pressures of the output", "cells at the viscosity limits and mixed cells are not judged; isotropic bodies")
prop("C14", "Composition diffuses conservatively and reacts towards its equilibrium",
     "With chemical_diffusion every step is the implicit balance of composition of each cell: change / step equals the diffusion through its four faces with the diffusivity of its phase, each side at the prescribed composition, closed, with the prescribed bottom flux, or periodic; over many steps a body follows the reference solution. With chemical_production the composition of a reactive phase relaxes with its kinetic time towards the error-function equilibrium around its reaction pressure, and that of other phases does not change.",
     ["inputs", "configurations", "histories"], "every multi-phase body, diffusivity, step size, combination of side conditions, reaction pressure and width, kinetic time, compressible or not, several steps, code units",
     "no test turns on chemistry.",
     ["MDLIB/ChemicalRoutines.c", "MDLIB/RheologyDensity.c", "MDLIB/RheologyParticles.c", "MDLIB/Setup.c", "MDLIB/Main_DOODZ.c"],
     [("diffusion", "ChemicalRoutines.c: ChemicalDirectSolve"), ("reaction", "RheologyDensity.c: ViscosityConcise"), ("marker composition", "RheologyParticles.c: UpdateParticleX"), ("side conditions", "Setup.c: SetBCs")],
     "property-based testing: balance recomputed from the output, an independent solver for histories, closed-form reaction progress", "flux values are only implemented (and only judged) at the bottom; histories allow 3 % of the range for marker smoothing")
prop("C19", "The time step follows the Courant, growth, reaction and user limits",
     "With constant_dt = 1 every step has the length given in the input file. Otherwise the step following a solution with largest velocity V is the smallest of Courant x min(dx, dz) / V, twice (with elasticity 1.25 times) the preceding step, the surface-process limit when a surface incision is on, and with chemical diffusion the given kinetic time over dt_reduction_factor, never above dt_max nor below dt_min; with elasticity an adaptive first step does not exceed the shortest Maxwell time. The written time is the sum of the steps, and files appear every writer_step steps.",
     ["inputs", "configurations", "histories"], "every flow (several phases, gravity, compressibility, elasticity), Courant number, initial step, limits, number of steps, writer step",
     "they take one step of constant length.",
     ["MDLIB/AdvectionRoutines.c", "MDLIB/Main_DOODZ.c", "MDLIB/InputOutput.c", "MDLIB/HDF5Output.c"],
     [("step selection", "AdvectionRoutines.c: DefineInitialTimestep, EvaluateCourantCriterion"), ("time loop", "Main_DOODZ.c: RunMDOODZ")],
     "property-based testing: reference time stepper applied to the written velocities", "histories without plasticity and melting")
prop("C17", "A setup file means what it says",
     "Every parameter of the model, of the solver, of the markers and of each phase has, in code units, the value given in the setup file by a line 'key = value' (in SI units, angles in degrees), or its default when there is no such line - whatever the order of lines and of phases (found by their ID), comments, blank lines, lines of other keys that begin alike, length of names, line ends, a missing final newline, and with the stated consequences only (e.g. simple shear makes the sides periodic, Newton turns on the line search). Any other text is refused or read, never a memory error or an endless loop.",
     ["inputs", "configurations"], "every subset of about 230 parameters, values, four scales, 0 to 20 phases, layouts of the file, and random edits of such files",
     "each uses one well-formed file of its own, in one order, in which most parameters are absent.",
     ["MDLIB/InputOutput.c"],
     [("reader", "InputOutput.c: ReadInputFile"), ("lines", "InputOutput.c: ReadInt2, ReadDou2, ReadChar, ReadMatProps"), ("units", "InputOutput.c: ScaleMe")],
     "property-based testing: generated setup files against a table of keys, units and defaults; structured fuzzing of edited files under address sanitizer", "data-base flow laws and phase diagrams are left to C08")
prop("C23", "The model starts as the set-up describes it",
     "The geometry helpers tell exactly which points lie inside a turned ellipse (full axes, degrees) or rectangle (full sizes, radians) around its own centre, in any length unit; the prepared pure and simple shear conditions give the stated type and value at every position; the default setup file is the name of the model file with .txt. The first output holds what the callbacks give: phase, velocity and stress of every marker, temperature, composition and grain size of every cell within the range of its markers, surface heights and surface phase, the stated defaults for callbacks that are not set, and as pressure the weight of the column above plus the background pressure.",
     ["inputs", "configurations"], "every shape, point, unit; every position, box and rate; every path; models with any subset of callbacks, phases, a surface, gravity, noise, markers per cell",
     "each set-up is one geometry around the origin, and nothing compares the first output with the set-up.",
     ["MDLIB/Setup.c", "MDLIB/Main_DOODZ.c", "MDLIB/GridRoutines.c", "MDLIB/ParticleRoutines.c"],
     [("geometry", "Setup.c: IsEllipseCoordinates, IsRectangleCoordinates"), ("conditions", "Setup.c: SetPureShearBCVx and its kin"), ("callbacks", "Setup.c: SetParticles, BuildInitialTopography"), ("initial pressure", "GridRoutines.c: ComputeLithostaticPressure")],
     "property-based testing: reference geometry, types and values; models compared with their own callbacks", "the porosity field is not written before the first step; the pressure callback is overwritten by the lithostatic pressure by design")
prop("C15", "The free surface is a material line between rock and nothing",
     "The markers of the surface start evenly on the given topography and move with the written flow (velocities of nodes in the air replaced by the ones of the rock next to them) by the fourth-order scheme, in every substep of a step; the heights of the columns are those of the markers (whole or as increments on the old heights), half columns that run short of markers are refilled, and at the end of a step all markers lie on the line through the heights, shifted to zero mean on request. Cells whose centre lies above the surface, the velocity nodes and the vertices between them are inactive, all others active. No rock marker lies above the surface, none is lost below it, and a cell just below the surface weighs as much as the rock in it.",
     ["inputs", "histories", "configurations"], "every flow, topography, rheology, number of substeps, both ways of updating heights, both interpolations",
     "the surface benchmark compares one relaxation rate with a tolerance; nothing looks at the chain, the tags or the markers.",
     ["MDLIB/FreeSurface.c", "MDLIB/AdvectionRoutines.c", "MDLIB/ParticleRoutines.c", "MDLIB/Main_DOODZ.c"],
     [("chain", "AdvectionRoutines.c: RogerGuntherII; ParticleRoutines.c: V2P"), ("heights", "FreeSurface.c: InterpTopoPart2Grid, MarkerChainPolyFit, RemeshMarkerChain"), ("tags", "FreeSurface.c: CellFlagging, CleanUpSurfaceParticles"), ("weights", "FreeSurface.c: SurfaceDensityCorrection")],
     "property-based testing: reference model of the marker chain, the heights and the tags, step by step from the written history", "moving boxes and polar models not covered; decisions within rounding are not judged")
prop("C30", "Erosion and sedimentation change the surface by the stated rates",
     "With surface processes the heights, after their motion with the flow, follow the diffusion equation with the given diffusivity (ends held) and rise by the sedimentation rate where they lie below the base level; with valley incision the columns of the valley also sink so that the valley loses width times incision rate; with basin filling all columns below the base level rise by the rate. Basin filling adds sediment markers of the phase of the current period, two per half column, half way between the old and the new surface. Tags, surface markers and rock markers follow the new heights as in C15.",
     ["inputs", "histories", "configurations"], "every topography, diffusivity (up to hundreds of substeps), base level, rate, valley, flow",
     "no test switches surface processes on.",
     ["MDLIB/FreeSurface.c", "MDLIB/Main_DOODZ.c"],
     [("processes", "FreeSurface.c: DiffuseAlongTopography"), ("sediments", "FreeSurface.c: AddPartSed")],
     "property-based testing: reference model of heights and sediment markers, step by step from the written history", "decisions within rounding (a height on the base level, a valley limit on a column) are not judged")
prop("C31", "Markers remember where they started and the most they have felt",
     "With track_T_P_x_z on, the fields written for a cell are the averages over its markers of what each of them remembers: the temperature, pressure and position it had at the start of the model and the largest temperature and pressure it has had since. A marker carries its memory along wherever it goes; only the marker itself changes the largest values, upwards.",
     ["inputs", "histories", "configurations"], "every flow, heat flow, rheology, number of steps, marker density, free surface, reseeding",
     "no test tracks anything.",
     ["MDLIB/RheologyParticles.c", "MDLIB/ParticleRoutines.c", "MDLIB/HDF5Output.c", "MDLIB/Main_DOODZ.c"],
     [("memory", "RheologyParticles.c: UpdateMaxPT"), ("start values", "Main_DOODZ.c: RunMDOODZ"), ("averages", "ParticleRoutines.c: P2Mastah; HDF5Output.c: WriteOutputHDF5")],
     "property-based testing: markers followed through the outputs, averages recomputed", "cells with markers added by reseeding, or next to the surface, are not compared")
prop("C27", "Rock changes phase at its transition temperature, and only there",
     "At the start of a step each marker of a phase with transmutation 1 that has reached the given temperature, or with transmutation -1 that has fallen to it, takes the given phase (and so all properties of it: the composition of cells follows the markers); all other markers keep their phase through flow, heating, reactions and reseeding for the whole model.",
     ["inputs", "histories", "configurations"], "every set of phases and rules (both directions, chains), heat flow, heat sources, flow, free surface, steps",
     "no test has a phase that transmutes.",
     ["MDLIB/ParticleRoutines.c", "MDLIB/RheologyParticles.c", "MDLIB/Main_DOODZ.c", "MDLIB/InputOutput.c"],
     [("rule", "TransmutateMarkers"), ("time loop", "Main_DOODZ.c: RunMDOODZ")],
     "property-based testing: reference rule applied to every marker of every step", "markers within 0.01 K of a transition are not judged")
prop("C28", "A moving box follows its walls and keeps its rock",
     "With pure_shear_ALE = 1 each wall of the box moves in every step by the step times the prescribed velocity at its place (the upper wall rests while a free surface is below it), in all substeps; the new grid is evenly spaced between the walls, in all written coordinates and sizes, and the conditions of the next step hold at the new walls. Markers move with the velocity of the moved grid, keep their phase, none is lost while it stays inside and none stays active outside.",
     ["inputs", "histories", "configurations"], "every flow, rheology, box position, compression and extension, step size, number of substeps, free surface",
     "no test moves the box.",
     ["MDLIB/AdvectionRoutines.c", "MDLIB/GridRoutines.c", "MDLIB/Main_DOODZ.c"],
     [("walls", "AdvectionRoutines.c: PureShearALE"), ("grid", "GridRoutines.c: SetGridCoordinates"), ("markers", "AdvectionRoutines.c: RogerGuntherII")],
     "property-based testing: walls, grids and marker paths predicted step by step from the written history", "pure_shear_ALE = 2 and -1 not covered")
prop("C16", "Anisotropic rock obeys the layered law and its fabric turns with the flow",
     "With anisotropy on, the stress of every place filled by one phase follows from its strain rate (with elasticity: the effective one) by the law of a layered rock: in the axes of the director shear along the layers meets the effective viscosity divided by the anisotropy factor, all other deformation the full one, and the effective viscosity is that of the flow laws of the phase (and of its yield stress) for the invariant of the strain rate. The factor is that of the phase, or with ani_fstrain = 1 the aspect ratio of the finite strain up to ani_fac_max. Directors start at the angle of the phase (or marker) and each marker's director, always of unit length, turns with the velocity gradient as the normal of a material plane. A director and its opposite are the same fabric, and a factor of 1 gives the result without anisotropy.",
     ["inputs", "histories", "configurations"], "every fabric, anisotropy factor, creep law, plastic, elastic or compressible phase, flow, averaging rule, free surface, per-phase and per-marker angles",
     "the anisotropy tests sample one set-up; no test looks at directors on markers or at elastic and strain-dependent anisotropy.",
     ["MDLIB/AnisotropyRoutines.c", "MDLIB/RheologyParticles.c", "MDLIB/RheologyDensity.c"],
     [("law", "AnisotropyRoutines.c: ViscosityConciseAniso, NonNewtonianViscosityGridAniso"), ("factor", "AnisotropyRoutines.c: UpdateAnisoFactor; RheologyParticles.c: FiniteStrainAspectRatio"), ("directors", "RheologyParticles.c: UpdateParticleStress; AnisotropyRoutines.c: InitialiseDirectorVector")],
     "property-based testing: reference law of layered rock, exact update of every director, metamorphic pairs", "viscosities of rocks at rest and elastic strain rates of mixed cells are not compared between pairs"),
prop("C32", "Markers take on the changes of the fields around them, and no others",
     "In every step each marker's temperature, pressure and (with elasticity) deviatoric stresses change by the interpolated change of the field, i.e. the new value of cells or vertices less the average of their markers before. With subgrid diffusion a marker moreover relaxes towards the field in its diffusion time (temperature), bulk (pressure) or Maxwell relaxation time (stress), the average of the cells being kept; stress_rotation then turns the stresses by the local rotation of the flow (Jaumann or exact). Nothing else changes them. With reseed_mode 1 a marker added by reseeding sits in the middle of its quarter cell and has the phase of its nearest neighbour, and its values or (direct_neighbour = 0) those of the fields.",
     ["inputs", "histories", "configurations"], "every flow, heat flow, rheology (viscous, power law, elastic, plastic, compressible), marker density, subgrid diffusion, stress rotation, interpolation stencil, periodic sides, free surface, reseeding",
     "no test reads a marker.",
     ["MDLIB/RheologyParticles.c", "MDLIB/ParticleRoutines.c", "MDLIB/Main_DOODZ.c"],
     [("temperature", "RheologyParticles.c: UpdateParticleEnergy"), ("pressure", "RheologyParticles.c: UpdateParticlePressure"), ("stress", "RheologyParticles.c: UpdateParticleStress"), ("averages", "ParticleRoutines.c: P2Mastah, Interp_Grid2P")],
     "property-based testing: update of every marker recomputed from the written markers and fields", "markers next to a free surface, and shear stresses next to periodic sides, are not compared")
