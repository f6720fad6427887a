"""The list of properties (source of properties.jsonl and MANIFEST.json)."""
REAL = ' f64 is treated as the reals; rustc/LLVM, the executor and its std models are trusted; panics are part of the contracts.'
UNIV = 'for every position, velocity, mass and parameter value; one obligation set per number of bodies (1 to 10, the hard capacity of the system), role assignment and enum variant'
WHY = 'The one stable test compares a single orbital-element conversion; the simulation tests only compare stored outputs of a few cases (and do not run without the data files), so they sample single points of '
PROPS = [
 dict(id='P01', title='Gravity: the acceleration of every body is the Newtonian N-body sum',
  statement='After the gravity evaluation, the acceleration of every body is the sum over all the other bodies of G m (x_j - x_i)/|x_j - x_i|^3, whatever the number of bodies and whichever of them is the most massive; so the forces add up to zero. Nothing else in the state changes.',
  over=['inputs', 'configurations'], quant=UNIV, why=WHY + 'this space.', files=['src/particles/universe.rs'],
  mech=[('gravity_calculate_acceleration', 'src/particles/universe.rs')], observe=['Universe::gravity_calculate_acceleration'],
  note='All inputs; capacity 10 bodies is exhausted.' + REAL),
 dict(id='P02', title='Collisions, Roche-limit crossings and ejections stop the run, nothing else does',
  statement='A gravity evaluation aborts the run exactly when some pair of bodies touches, some body is inside the Roche limit of the host it orbits, or some body is farther from the host than the ejection distance; in every other state it completes.',
  over=['inputs', 'configurations'], quant=UNIV + '; any pair, any body order', why=WHY + 'regular evolution, none halts.', files=['src/particles/universe.rs'],
  mech=[('gravity_calculate_acceleration halting conditions', 'src/particles/universe.rs'), ('Roche radius', 'src/particles/particle.rs')], observe=['panic of Universe::gravity_calculate_acceleration'],
  note='All inputs for 2-10 bodies.' + REAL),
 dict(id='P03', title='A new universe is barycentric and loses no body, motion or parameter',
  statement='Building a universe from bodies puts the origin at the centre of mass with zero total momentum, keeps every relative position and velocity, copies every other parameter of every body, and starts with the spin, angular momentum and moment of inertia implied by the input. Building a body stores exactly the given values.',
  over=['inputs', 'configurations'], quant=UNIV, why=WHY + 'this space.', files=['src/particles/universe.rs', 'src/particles/particle.rs'],
  mech=[('Universe::new', 'src/particles/universe.rs'), ('Particle::new', 'src/particles/particle.rs')], observe=['Universe::new'],
  note='All inputs.' + REAL),
 dict(id='P04', title='Effects and their host bodies are resolved consistently or refused',
  statement='For every assignment of roles to bodies, construction keeps an effect switched on only if a central body and a body affected by it exist, resolves the one host of each effect, and refuses configurations with two hosts of one effect or with hosts that the effects cannot share.',
  over=['configurations'], quant='every combination of roles of the bodies (all effects, up to 10 bodies for the host search)', why=WHY + 'a handful of role assignments.', files=['src/particles/universe.rs'],
  mech=[('find_indices, disable_unnecessary_effects', 'src/particles/universe.rs')], observe=['Universe::new'],
  note='All role assignments symbolically.' + REAL),
 dict(id='P05', title='Heliocentric coordinates are those of the current inertial state',
  statement='After the conversion, the position, velocity, distance, speed and radial velocity of every body relative to the most massive one equal those of the inertial state, and those of the most massive body are zero; inertial state is untouched.',
  over=['inputs', 'configurations'], quant=UNIV, why=WHY + 'this space.', files=['src/particles/universe.rs'],
  mech=[('inertial_to_heliocentric', 'src/particles/universe.rs')], observe=['Universe::inertial_to_heliocentric'],
  note='All inputs.' + REAL),
 dict(id='P06', title='Spin follows angular momentum and moment of inertia',
  statement='Whenever effects are evaluated, the spin of every body is its angular momentum divided by its moment of inertia (a missing moment of inertia aborts), and the stored squared norm is that of this spin.',
  over=['inputs', 'configurations'], quant=UNIV, why=WHY + 'this space.', files=['src/particles/common.rs', 'src/particles/universe.rs'],
  mech=[('calculate_spin', 'src/particles/common.rs')], observe=['Universe::calculate_spin_and_evolving_quantities'],
  note='All inputs.' + REAL),
 dict(id='P07', title='Constant-time-lag tides give the published forces and conserve momentum',
  statement='With constant-time-lag tides the acceleration of every planet and of the host, and the torque on every spin, are those of the Hut/Bolmont formulas with the dissipation (including the frequency-dependent dissipation inside the dynamical-tide regime) of the current state; forces on planets and host cancel, and torques on spins and orbits cancel. Bodies without tides take no part, and the result does not depend on values left by earlier evaluations.',
  over=['inputs', 'configurations', 'histories'], quant=UNIV + '; every place of host and most massive body; stale state arbitrary', why=WHY + 'this space; stale-state effects need two evaluations.', files=['src/effects/tides/constant_time_lag.rs', 'src/effects/tides/common.rs', 'src/particles/universe.rs'],
  mech=[('constant_time_lag', 'src/effects/tides/constant_time_lag.rs'), ('calculate_additional_effects', 'src/particles/universe.rs')], observe=['Universe::calculate_additional_effects'],
  note='All inputs for the listed body counts and placements.' + REAL),
 dict(id='P08', title='Creep tides raise the published figures, forces and torques on coplanar bodies',
  statement='With creep tides or creep flattening every affected body takes the figure of a homogeneous body of the given viscosity: each harmonic of the tide in its present orbit is followed with the amplitude and lag of its own frequency, or, below pseudo-synchronous rotation, with the published stationary solution. The accelerations of body and host and the torques on the spins are those of the quadrupole of these figures for the current orbits and spins, equal and opposite between body and orbit. Bodies without creep take no part, and creep flattening does not depend on tides being switched on.',
  over=['inputs', 'configurations', 'histories'], quant='every mass, radius, viscosity, spin, eccentricity, anomaly and orbit; 2-4 bodies at every place of host and most massive body; tides, flattening and both; stale state arbitrary', why=WHY + 'this space; one wrong coefficient of the expansion in eccentricity shows only at high eccentricity.', files=['src/effects/tides/creep_coplanar.rs', 'src/effects/rotational_flattening/creep_coplanar.rs', 'src/effects/tides/common.rs', 'src/effects/rotational_flattening/common.rs'],
  mech=[('calculate_particle_shape', 'src/effects/tides/creep_coplanar.rs'), ('forces and torques of the figure', 'src/effects/tides/creep_coplanar.rs'), ('calculate_additional_effects', 'src/particles/universe.rs')], observe=['Universe::calculate_additional_effects'],
  note='The expansion in eccentricity (to the 7th power, as published) is recomputed from the two-body problem. The orbital elements enter through the contract of P25. The Kepler iteration is unrolled for 1-3 (thorough: 6) rounds. Bounded part: the compiled shape on 900 bodies.' + REAL),
 dict(id='P09', title='Kaula tides of coplanar bodies follow the tabulated response of every harmonic',
  statement='With Kaula tides on a body whose equator is its orbital plane, the tidal force and torque are the sums over the harmonics of the tidal potential in the present orbit around the tidal host, each answered with the complex Love number of its own frequency, interpolated in the given table (for a planet even in the real and odd in the imaginary part, for a star as tabulated), with the published eccentricity functions to their stated order. The tide on the body scales with the mass of its partner and its own radius; the tides that several planets raise on a Kaula star act on it and on each planet separately; forces cancel between body and host, and the torque on each spin is opposite to the one on the orbit. The inclination and eccentricity functions are those of Kaula. Bodies without tides take no part.',
  over=['inputs', 'configurations'], quant='every mass, radius, spin, orbit, anomaly and every strictly increasing table of 1024 frequencies; every position of a frequency in it; each range of eccentricity; 2-4 bodies at every place of host and most massive body, Kaula or rigid star', why=WHY + 'this space; one wrong coefficient or row shows only at some eccentricity or frequency.', files=['src/effects/tides/kaula.rs', 'src/effects/tides/common.rs', 'src/particles/universe.rs'],
  mech=[('calculate_tidal_force, Love numbers, eccentricity and inclination functions', 'src/effects/tides/kaula.rs'), ('calculate_tidal_acceleration, calculate_dangular_momentum_dt_due_to_tides', 'src/effects/tides/common.rs'), ('calculate_additional_effects', 'src/particles/universe.rs')], observe=['Universe::calculate_additional_effects'],
  note='Obliquities up to 1e-8, where the code uses its coplanar formulae; the formulae for larger obliquities (marked experimental in the code) are not under contract, only the functions they use. Binary search enters through its contract on a sorted slice. Kaula functions are recomputed from the two-body problem and from Kaula (1961), equation 23.' + REAL),
 dict(id='P10', title='Rotational flattening gives the oblate-spheroid forces and conserves momentum',
  statement='With rotational flattening the acceleration of every affected body and of the host, and the torque on every spin, are those of the quadrupole of a rotating oblate spheroid for the current spins and positions; forces cancel, and a body that does not rotate exerts none. Bodies without flattening take no part.',
  over=['inputs', 'configurations'], quant=UNIV + '; every place of host and most massive body', why=WHY + 'this space.', files=['src/effects/rotational_flattening/oblate_spheroid.rs', 'src/effects/rotational_flattening/common.rs', 'src/particles/universe.rs'],
  mech=[('oblate spheroid forces and torques', 'src/effects/rotational_flattening/oblate_spheroid.rs'), ('calculate_additional_effects', 'src/particles/universe.rs')], observe=['Universe::calculate_additional_effects'],
  note='All inputs for the listed body counts and placements.' + REAL),
 dict(id='P11', title='General relativity gives the published post-Newtonian forces and torques',
  statement='With general relativity the acceleration of every affected body and of the host (and, for the Kidder formulation, the torque on every spin) are those of the published formulas: first and second post-Newtonian order with spin-orbit coupling (Kidder 1995), or the iterated Anderson 1975 and Newhall 1983 equations with the full Newtonian accelerations, whatever gravity terms the integrator leaves to the Kepler solver. Bodies without relativity receive nothing, and do not make the result undefined.',
  over=['inputs', 'configurations'], quant=UNIV + '; every place of the host; each convergence case of the iterations for two bodies', why=WHY + 'this space, and relativistic terms are far below test tolerances.', files=['src/effects/general_relativity.rs', 'src/particles/universe.rs'],
  mech=[('Kidder 1995, Anderson 1975, Newhall 1983', 'src/effects/general_relativity.rs'), ('calculate_additional_effects', 'src/particles/universe.rs')], observe=['Universe::calculate_additional_effects'],
  note='All inputs for Kidder; for the iterated formulations every stopping iteration for 2 bodies and selected combinations for 3-10.' + REAL),
 dict(id='P12', title='Disk migration follows the published time scales and conserves momentum',
  statement='With a protoplanetary disk every body outside its inner edge is accelerated by the migration, eccentricity-damping and inclination-damping terms of the current orbit, disk profile and age; inside the inner edge there is none, and the host receives the opposite momentum. Bodies without disk interaction take no part.',
  over=['inputs', 'configurations'], quant=UNIV + '; every place of host and most massive body', why=WHY + 'this space.', files=['src/effects/disk.rs', 'src/particles/universe.rs'],
  mech=[('disk migration', 'src/effects/disk.rs')], observe=['Universe::calculate_additional_effects'],
  note='All inputs for the listed body counts and placements.' + REAL),
 dict(id='P13', title='Magnetised wind braking brakes every windy body by the saturated law',
  statement='The wind torque of every body with a wind is antiparallel to its spin, with the magnitude K min(w, w_sat)^2 w (R/R_sun)^(1/2) (M/M_sun)^(-1/2), and enters its total torque; bodies without wind have none.',
  over=['inputs', 'configurations'], quant=UNIV, why=WHY + 'this space.', files=['src/effects/wind.rs', 'src/particles/universe.rs'],
  mech=[('wind braking', 'src/effects/wind.rs')], observe=['Universe::calculate_additional_effects'],
  note='All inputs for 1-10 bodies.' + REAL),
 dict(id='P14', title='Additional effects superpose and totals are the sums of enabled effects',
  statement='For every set of enabled effects and every place of their hosts, each effect gives every body the same acceleration and torque as it would alone, the total additional acceleration and total torque are the sums over the enabled effects, and what was not asked for (torques or accelerations) is left alone. Evaluating effects changes neither positions, velocities, angular momenta nor gravity.',
  over=['inputs', 'configurations', 'histories'], quant=UNIV + '; all 31 sets of effects; stale state arbitrary', why=WHY + 'this space; interference between effects needs specific sets and hosts.', files=['src/particles/universe.rs'],
  mech=[('calculate_additional_effects, initialize, totals', 'src/particles/universe.rs')], observe=['Universe::calculate_additional_effects'],
  note='All inputs for the listed body counts, placements and all sets of effects.' + REAL),
 dict(id='P15', title='Evolving quantities follow the tables of their evolution model',
  statement='The radius, radius of gyration, Love number and dissipation of an evolving body are at any time the linear interpolation between the two rows of its model table around that time (the end rows outside it), also when time goes back by up to ten rows, with the moment of inertia, spin and lag angle that follow from them; what the model does not provide is kept. The table read is the one of the requested model and mass, with its columns converted to days, AU and solar masses and shifted to the initial time, and a simulation outside its range is refused.',
  over=['inputs', 'configurations', 'histories'], quant='every table of 1, 3 and 14 rows (thorough: 24), every position of the time in it, every remembered row; all eight models; any raw file contents of 3 and 4 rows and every supported mass', why=WHY + 'this space; the tables are not even in the repository.', files=['src/effects/evolution.rs', 'src/tools.rs', 'src/particles/universe.rs'],
  mech=[('Evolver::new, its four quantities, linear_interpolation, the evolution of the bodies', 'src/effects/evolution.rs')], observe=['Evolver::radius', 'Universe::calculate_spin_and_evolving_quantities'],
  note='All values for the listed table lengths; the csv crate and the rounding of libmath are contracts.' + REAL),
 dict(id='P16', title='A leapfrog step is the symplectic kick-drift-kick map',
  statement='One leapfrog iteration advances positions, velocities, spins and time exactly by a half-step drift, a full-step kick with the gravity and additional accelerations of the half-way state, and a half-step drift; the spin angular momenta advance by the torques of that state. Nothing else about the bodies changes.',
  over=['inputs', 'configurations', 'histories'], quant=UNIV + '; any step size and any state', why=WHY + 'this space; errors of one step are far below the tolerances of comparisons.', files=['src/integrator/leapfrog.rs'],
  mech=[('LeapFrog iterate and its sub-steps', 'src/integrator/leapfrog.rs')], observe=['LeapFrog::iterate'],
  note='All inputs for the listed body counts and effect sets.' + REAL),
 dict(id='P17', title='A WHFast step is the Wisdom-Holman map in the chosen coordinates',
  statement='One WHFast iteration without additional effects is the composition of half-step Kepler drifts (and jumps), the interaction kick, and half-step Kepler drifts in Jacobi, democratic-heliocentric or WHDS coordinates; converting to the chosen coordinates and back is the identity, whatever the number of bodies and whichever is the most massive.',
  over=['inputs', 'configurations', 'histories'], quant=UNIV + '; any step size; three coordinate systems; the Kepler solver is an uninterpreted function', why=WHY + 'this space; a wrong splitting still gives plausible orbits.', files=['src/integrator/whfast.rs'],
  mech=[('WHFast iterate, interaction, jump, Kepler and centre-of-mass steps, coordinate conversions', 'src/integrator/whfast.rs')], observe=['WHFast::iterate'],
  note='All inputs; the universal-variable Kepler solver is left uninterpreted.' + REAL),
 dict(id='P18', title='The Kepler drift of WHFast is the exact two-body motion',
  statement='Advancing one body along its Keplerian orbit moves it by exactly the two-body motion for the given central mass and time, on elliptic and hyperbolic orbits and for short steps and steps longer than the period, and changes nothing else. The root finder stops only where its value repeats, or otherwise falls back to a bisection of a bracket around the solution down to the last digits; the series it uses are evaluated only where they are accurate.',
  over=['inputs', 'histories'], quant='every orbit, central mass and step that goes through the same root-finding rounds as one of 16 sample cases (both solvers, convergence, cycling, bisection); the series for every argument with up to 5 (thorough: 11) halvings', why=WHY + 'this space; a solver that stops early or a wrong coefficient shows only for special orbits.', files=['src/integrator/whfast.rs'],
  mech=[('kepler_individual_step, stiefel_gs3, stumpff_cs3', 'src/integrator/whfast.rs')], observe=['WHFast::iterate'],
  note='The values of the Stiefel functions enter the step through their contract; the rounds of the root finder are those of a sample input. Bounded part: the compiled step in machine arithmetic on 225 orbits and steps.' + REAL),
 dict(id='P19', title='WHFast applies every additional effect by the implicit midpoint rule',
  statement='With additional effects, one WHFast iteration surrounds the gravity-only map by two half steps of the implicit midpoint rule for velocities and spin angular momenta, iterated until both have converged or the iteration limit is reached; every enabled effect that has a torque evolves the spins, and evolving quantities are refreshed once per step.',
  over=['inputs', 'configurations', 'histories'], quant=UNIV + '; any step size; every effect and all effects together; three coordinate systems', why=WHY + 'this space.', files=['src/integrator/whfast.rs', 'src/particles/universe.rs'],
  mech=[('velocity-dependent half steps', 'src/integrator/whfast.rs')], observe=['WHFast::iterate'],
  note='All inputs for 2 (thorough: 3) bodies.' + REAL),
 dict(id='P20', title='An IAS15 step follows smooth forces to order 15 within its error control',
  statement='Forces and torques that are polynomials of time of degree up to seven are integrated exactly by one accepted step (velocity and spin up to degree fourteen), with corrections repeated until they stop changing, oscillate or twelve rounds have passed. The next step is the present one times the seventh root of tolerance over estimated error, with growth limited to four; a proposal below a quarter of the present step rejects the step and repeats it from the initial state. The next step starts from the continuation of the present force polynomials, and coordinate sums are compensated for rounding.',
  over=['inputs', 'histories', 'configurations'], quant='every state, step, and force polynomial that follows the same accept, reject, grow and converge decisions as one of 45 sample cases; one force or torque coordinate at a time and pairs of them, 2-3 bodies', why=WHY + 'this space; with 28+21+21 constants a wrong digit in one still gives plausible orbits.', files=['src/integrator/ias15.rs'],
  mech=[('substeps, error estimate, step acceptance', 'src/integrator/ias15.rs'), ('prediction of the next step', 'src/integrator/ias15.rs')], observe=['Ias15::iterate'],
  note='Forces enter through a contract that makes them polynomials of time. The path through the error tests is that of a sample input (samples lie on both sides of every threshold); for all inputs on that path the obligations are discharged. Bounded parts: the seventh root (441 arguments), the compensated addition in double precision (6000 sums).' + REAL),
 dict(id='P21', title='Records, recovery points and the end of a run follow the schedule',
  statement='For every integrator a record is written exactly when one is due (at the start and then once per historic period), a recovery snapshot is asked for exactly when one is due, and the run ends exactly when another step would pass the time limit. Every iteration advances time by exactly the step taken and counts what it wrote.',
  over=['inputs', 'histories', 'configurations'], quant='every schedule state, period, limit and step, for each integrator and 1-10 bodies; inductive over iterations', why='The schedule is a loop invariant over arbitrarily long runs and arbitrary periods; a test runs a few steps of one schedule.', files=['src/integrator/leapfrog.rs', 'src/integrator/whfast.rs', 'src/integrator/ias15.rs'],
  mech=[('iterate', 'src/integrator/leapfrog.rs'), ('iterate', 'src/integrator/whfast.rs'), ('iterate', 'src/integrator/ias15.rs')], observe=['Integrator::iterate'],
  note='All schedule states; one iteration is inductive.' + REAL),
 dict(id='P22', title='Every record holds the documented numbers of the state at its time',
  statement='Each record of the history file holds, for every body in order, the twenty documented fixed-width numbers (time, time step, identifier, inertial position, spin, inertial velocity, mass, radius, radius of gyration squared, love number, dissipation factor, lag angle, tidal dissipation, migration time scale) of the state at the recorded time. The record size announced to readers is the one written.',
  over=['inputs', 'configurations'], quant=UNIV + '; each integrator', why=WHY + 'this space; a wrong column still looks plausible.', files=['src/integrator/output.rs', 'src/integrator/leapfrog.rs', 'src/integrator/whfast.rs', 'src/integrator/ias15.rs'],
  mech=[('write_historic_snapshot, write_bin_snapshot', 'src/integrator/output.rs'), ('iterate', 'src/integrator/whfast.rs')], observe=['Integrator::iterate', 'the history file'],
  note='All inputs for the listed body counts and placements.' + REAL),
 dict(id='P23', title='Recovery snapshots are complete, atomic and restore the exact state',
  statement='Encoding and decoding any saved state gives back every field of it; writing a snapshot either succeeds completely or stops the program, and at every point of it, a crash included, one complete snapshot is on disk. Records counted by a snapshot are in the history file before it is written, the replaced snapshot is kept as a backup, and resuming cuts the history to the counted records.',
  over=['inputs', 'crash_points', 'histories'], quant='every value of every saved type; every failure of a file operation and every prefix of the sequence of file operations', why='Crash points and failed writes cannot be sampled by tests, and a field dropped by the encoder shows only after a resume.', files=['src/integrator/output.rs', 'src/integrator/leapfrog.rs', 'src/integrator/whfast.rs', 'src/integrator/ias15.rs'],
  mech=[('write_recovery_snapshot, restore_snapshot, get_universe_history_writer', 'src/integrator/output.rs'), ('Serialize and Deserialize of the saved types', 'src/particles/universe.rs')], observe=['output::write_recovery_snapshot', 'output::restore_snapshot', 'output::get_universe_history_writer'],
  note='All values and all failures; file system operations and the number encoding of bincode are assumed contracts.'),
 dict(id='P24', title='The command line starts, resumes and stops runs as asked',
  statement='Starting refuses to overwrite an existing snapshot or history before touching any file; resuming applies exactly the periods and the time limit given (a limit in the past or beyond the evolution models aborts, values not given stay) and continues the history at the saved number of records. The run loop writes a recovery snapshot exactly when one is due or the execution time is over, and ends exactly then or when the integration is complete.',
  over=['inputs', 'histories', 'configurations'], quant='every option combination listed, every period and limit value, every state; the run loop for every verdict of up to four iterations and any clock', why='The run loop, its clock and the refusal paths are not reachable from unit tests.', files=['src/main.rs', 'src/integrator/leapfrog.rs', 'src/integrator/whfast.rs', 'src/integrator/ias15.rs'],
  mech=[('main', 'src/main.rs'), ('set_time_limit, set_snapshot_periods, initialize_physical_values', 'src/integrator/leapfrog.rs')], observe=['the program', 'Integrator::set_time_limit', 'Integrator::set_snapshot_periods'],
  note='All values; the run loop of the program is explored for four iterations (its body keeps no state of its own); argument parsing and file system calls are assumed contracts.'),
 dict(id='P25', title='Orbital elements and coordinates convert into each other',
  statement='Coordinates computed from orbital elements are those of the elliptic, parabolic or hyperbolic orbit with these elements at the given mean anomaly of either sign, and elements computed from coordinates (circular, elliptic and hyperbolic orbits, any inclination, node and quadrant) are the ones of that orbit. Perihelion distance, eccentricity vector, obliquity, spin vectors and the pseudo-synchronous period follow from the same definitions.',
  over=['inputs'], quant='every set of elements and every state, by kind of orbit and of plane; Kepler\'s equation bounded to a grid of anomalies and eccentricities in the compiled code', why='Quadrants, negative anomalies, circular and hyperbolic orbits are corners of a continuous space; the one unit test uses a single orbit at its perihelion.', files=['src/tools.rs'],
  mech=[('calculate_cartesian_coordinates, calculate_keplerian_orbital_elements and the helpers around them', 'src/tools.rs')], observe=['tools::calculate_cartesian_coordinates', 'tools::calculate_keplerian_orbital_elements'],
  note='All inputs for the conversions; the solvers of Kepler\'s equation are bounded (595 sets of elements, compiled code against multiprecision).' + REAL),
 dict(id='P28', title='Energy, angular-momentum and tidal-heating diagnostics are those of the state',
  statement='The reported total energy is the kinetic plus potential energy of the bodies, the reported total angular momentum is the norm of the sum of the orbital angular momenta, both in the heliocentric coordinates, and the reported tidal dissipation of every body is the rate at which the tidal force and torque take energy from its orbit and spins.',
  over=['inputs'], quant=UNIV, why=WHY + 'this space.', files=['src/particles/universe.rs', 'src/effects/tides/common.rs'],
  mech=[('compute_total_energy, compute_total_angular_momentum', 'src/particles/universe.rs'), ('calculate_denergy_dt', 'src/effects/tides/common.rs')], observe=['Universe::compute_total_energy', 'Universe::compute_total_angular_momentum', 'Universe::calculate_denergy_dt'],
  note='All inputs.' + REAL),
]
NOT_APPLICABLE = []
