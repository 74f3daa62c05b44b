"""Properties: text, quantifier, anchors.  tools/gen.py turns this into
properties.jsonl and MANIFEST.json."""
P = []


def prop(id, title, statement, over, text, why, files, mech, na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, na=na, note=note))


prop('P02', 'Cosmological state stays consistent with the Friedmann equation',
     'After every step and after initialisation, scale factor, temperature, conformal temperature, energy density, Hubble rate, '
     'entropy, effective neutrino number and step sizes satisfy their defining relations (T = aT/a, H = sqrt(8 pi G rho / 3), the '
     'logarithmic or linear step relation), and time advances by exactly one step divided by the Hubble rate. '
     'The totals they are computed from are the sums over all species of the universe.',
     ['inputs', 'histories', 'configurations'], 'every species content, densities, step sizes and both step settings',
     'The running tests build no universe; the relations must hold for every state, not a sampled run.',
     ['common/__init__.py', 'evolution.py'],
     [('Params.update / infer / init_time', 'common/__init__.py'), ('totals over species', 'evolution.py')])

prop('P03', 'Equilibrium thermodynamics: densities, pressure and entropy per regime',
     'For a species in equilibrium, number density, energy density, pressure and entropy are the Fermi-Dirac or Bose-Einstein '
     'moments of its mass, temperature and spin states: closed forms when ultra-relativistic, explicit integrals in between, and the '
     'Boltzmann expansion when non-relativistic. Entropy is always (rho + p)/T scaled to the comoving volume, and statistics '
     'weights 7/8 and 3/4 apply to fermions only.',
     ['inputs', 'configurations'], 'every mass, temperature, number of states, statistics',
     'The reliable tests never evaluate a thermodynamic moment; equality has to hold for all temperatures and masses.',
     ['particles/RadiationParticle.py', 'particles/IntermediateParticle.py', 'particles/DustParticle.py', 'common/statistics.py'],
     [('density, energy_density, pressure, entropy', 'particles/*Particle.py')])

prop('P04', 'Moments of a decoupled species come from its own distribution',
     'For a species out of equilibrium, number density, energy density, pressure and entropy are the corresponding phase-space '
     'integrals of its stored distribution function on its momentum grid, with the conformal energy of its mass and the right power of the '
     'scale factor.',
     ['inputs', 'histories'], 'every distribution, grid, mass and scale factor',
     'No reliable test evaluates a non-equilibrium moment.',
     ['particles/NonEqParticle.py'], [('density, energy_density, pressure, entropy', 'particles/NonEqParticle.py')])

prop('P05', 'Equilibrium and regime classification follows mass and temperature',
     'A thermally produced species is in equilibrium exactly while its temperature exceeds its decoupling temperature; in equilibrium it is '
     'relativistic above mass times the switching factor, non-relativistic below mass over the factor, intermediate otherwise. '
     'All its observable quantities come from the model of that one regime, energies are relativistic energies of its mass, and '
     'construction honours every given property and documented default.',
     ['inputs', 'configurations'], 'every mass, temperature, decoupling temperature and switching factor',
     'Boundary cases between regimes are a continuum of inputs; no reliable test builds a particle.',
     ['particles/__init__.py'], [('regime, in_equilibrium, populate_methods, energies, constructor', 'particles/__init__.py')])

prop('P06', 'Temperature equation balances the heat of every species',
     'The rate of change of the comoving temperature is the sum over all species of their heating terms divided by the sum of their heat '
     'capacities, each given by the analytic terms of the current regime of that species, multiplied by the scale variable when '
     'stepping logarithmically.',
     ['inputs', 'configurations', 'histories'], 'every species content, regime mix, distribution and collision term',
     'The equation has to balance for every mixture and state; the reliable tests never compute it.',
     ['particles/RadiationParticle.py', 'particles/IntermediateParticle.py', 'particles/DustParticle.py', 'particles/NonEqParticle.py', 'evolution.py'],
     [('numerator and denominator', 'particles/*Particle.py'), ('integrand', 'evolution.py')])

prop('P07', 'Decoupling freezes the distribution once and at the right temperature',
     'While coupled a species follows the bath temperature and a thermal distribution; at the step it decouples, its distribution is set once '
     'from the thermal one, the decoupling time is recorded, and afterwards its comoving temperature no longer follows the bath. '
     'A non-thermal species starts empty, and every state update records one row of scale factor, time, temperature and densities.',
     ['inputs', 'histories'], 'every temperature history and species',
     'Behaviour at the transition depends on the whole history; no reliable test evolves a particle.',
     ['particles/__init__.py'], [('set_params, update, init_distribution, distribution', 'particles/__init__.py')])

prop('P08', 'Each evolution step does its phases once, in order, until the final temperature',
     'Every step updates all species, activates all interactions, computes collision rates of the species with active collisions, '
     'mixes oscillating flavours, applies distributions of all species, solves the temperature equation, advances and only then records. '
     'The run stops at the first state not above the final temperature, and the initial state and every step are recorded exactly once.',
     ['histories', 'inputs', 'configurations'], 'every species list, interaction list, final temperature and option',
     'A property of all step sequences; the reliable tests never run the loop.',
     ['evolution.py'], [('integrand, make_step, evolve, save_params', 'evolution.py')])

prop('P09', 'Explicit temperature stepping is the Adams-Bashforth method',
     'Given the history of rates, the explicit correction is the Adams-Bashforth formula of the requested order, or of the highest order up '
     'to five that the history allows, applied to the most recent entries. Euler and Heun corrections are first and second order consistent.',
     ['inputs', 'histories'], 'every rate history, step and admissible order',
     'Coefficients must be right for every history; sampling a few histories cannot distinguish similar formulas at all orders.',
     ['common/integrators/__init__.py'], [('adams_bashforth_correction, euler_correction, heun_correction', 'common/integrators/__init__.py')],
     note='histories of length 1-7 in the quick tier (1-13 thorough), every admissible order; entries symbolic')

prop('P10', 'Distributions advance by the implicit step of the collected collision rates',
     'The collision rate of a decoupled species is the change over one step of the implicit Adams-Moulton solution of the linearised '
     'kinetic equation, whose source and loss terms are the sums of all active integrals, each counted once according to its kind. '
     'Distributions then advance by rate times step, stay non-negative, and never take a non-finite rate; finished or coupled species do not change.',
     ['inputs', 'histories'], 'every list of integrals, history, distribution and step',
     'Depends on all combinations of integral kinds and histories; no reliable test touches it.',
     ['particles/__init__.py', 'common/integrators/__init__.py'],
     [('calculate_collision_integral, update_distribution', 'particles/__init__.py'), ('adams_moulton_solver, implicit_euler', 'common/integrators/__init__.py')],
     note='solver histories of length 0-6 in the quick tier (0-12 thorough)')

prop('P11', 'Quadrature maps the integration domain exactly',
     'Fixed-order integration evaluates the integrand at the Gauss nodes mapped affinely onto the requested interval or region (inner '
     'limits as functions of the outer variable) and multiplies by the Jacobian, so interval, orientation and weights are respected; '
     'single and paired integrands agree.',
     ['inputs'], 'every integrand, interval and region', 'Must hold for every integrand and region, including reversed or variable limits.',
     ['common/integrators/__init__.py', 'common/integrators/paired.py', 'common/integrators/gauss_legendre.py', 'common/integrators/gauss_laguerre.py'],
     [('gaussian, remap_interval, double_gaussian, integrate_1D, integrate_2D', 'common/integrators/')])

prop('P14', 'Collision integrals are assembled with the right inputs and normalisation',
     'A collision integral hands the compiled integrator, in integrator units, every participant\'s statistics sign, conformal mass, grid, '
     'distribution, equilibrium flag and temperature with the side it stands on, the matrix elements over the common weak factor, and the '
     'momentum limits of the participants integrated over. Its result is scaled by the coupling, scale-factor, multiplicity and spin-state '
     'factors per unit step, the creation gain by the branching ratio, and split into gain and loss according to its kind; the parts '
     'outside the computed range stay zero. Data derived from the participants is rebuilt whenever the integral is initialised.',
     ['inputs', 'configurations', 'histories'], 'every reaction, kind of integral, species state, momentum array and both step settings',
     'No test can evaluate a collision integral here (the compiled extensions are not built); the factors hold for all states.',
     ['interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py'],
     [('initialize, integrate', 'interactions/four_particle/__init__.py'), ('initialize, integrate', 'interactions/three_particle/__init__.py')])

prop('P18', 'Kinematic limits of collision and decay integrals match the reaction',
     'For every reaction, the integration limits, grid cutoffs and interpolation nodes of its collision integral are those energy and '
     'momentum conservation allow: break-up momentum of two-body decays, thresholds of three- and four-particle creation from the largest '
     'energies available on the grids, and the full grid otherwise; never below the grid start and never beyond its end.',
     ['inputs', 'configurations'], 'every mass combination, grid and reaction orientation',
     'bounds_checks.py compares two bound functions of its own on sampled masses; the limits used by the package must hold for all masses and grids.',
     ['common/kinematics.py'], [('bounds_creation, grid_cutoff_*, interpolation_4p, cm_momentum', 'common/kinematics.py')],
     note='grid_cutoff_4p is decided for the reaction kinds the package generates')

prop('P20', 'Flavour oscillations mix collision rates by a stochastic pattern',
     'Oscillation probabilities are those of the three-flavour mixing matrix with the given angles, in vacuum or matter; they are symmetric '
     'and each row adds to one, so mixing conserves the summed collision rate of the mixed flavours. The pattern is recomputed from the '
     'current state in each step, and all flavours are mixed from the rates before mixing.',
     ['inputs', 'histories'], 'every matter potential, momentum, temperature and set of rates',
     'A sum rule over continuous parameters and simultaneous update over flavours; no reliable test mixes anything.',
     ['library/SM.py', 'evolution.py'], [('oscillations_map', 'library/SM.py'), ('oscillation_parameters, init_oscillations, update_distributions', 'evolution.py')],
     note='the matter-modified mixing angles themselves are taken as computed; the pattern built from them is decided')

prop('P21', 'Nuclear-code export carries the weak rates and the state in the right units',
     'Each of the six neutron-proton rates is the phase-space integral of its reaction with Fermi factors for the particles present and '
     'Pauli blocking for those produced, over the momenta its threshold allows, in the order of the exported heading. A row is '
     'exported once per step below the export temperature and carries time, temperature, its rate of change, energy density and Hubble '
     'rate of that step in the documented units.',
     ['inputs', 'histories', 'configurations'], 'every electron and neutrino distribution, scale factor and step',
     'The export runs only with a compiled KAWANO and an evolved universe; the rates must be right for all distributions.',
     ['kawano.py', 'evolution.py'], [('baryonic_rates, _rate1 .. _rate6, heading', 'kawano.py'), ('save', 'evolution.py')])

prop('P22', 'History tables keep exactly the rows appended, in order',
     'After any sequence of appends and truncations a history table contains exactly the rows that should remain, in order and unmodified by '
     'growth; lookups by column, row and negative index see only appended rows, and the printed row shows each column in its unit.',
     ['histories', 'inputs'], 'every sequence of append, extend and truncate of any length',
     'Growth happens at particular lengths only; all lengths have to be covered.',
     ['common/utils.py'], [('DynamicRecArray, Dynamic2DArray', 'common/utils.py')],
     note='the reachable capacity states are enumerated until row counts of several hundred; beyond that the growth rule is monotone')

prop('P23', 'Momentum grids and interpolation on them',
     'A momentum grid has the requested number of samples from zero (or the smallest momentum) to the requested maximum, evenly or '
     'logarithmically spaced. Interpolation returns the stored value at each node, uses the neighbouring nodes in between, and the '
     'grid search returns the neighbours of the argument.',
     ['inputs'], 'every grid size, maximum, function table and argument',
     'Has to hold at every argument, between and on nodes, not at samples.',
     ['common/__init__.py'], [('LinearSpacedGrid, LogSpacedGrid, linear_interpolation, cubic_interpolation, binary_find, interp', 'common/__init__.py')])

prop('P24', 'Fast decays return to the plasma what they take out, by branching ratio',
     'What decays into a fast-decaying species within a step decays in the same step: its distribution is the created (and thermal '
     'remnant) one, redistributed to a thermal shape of the same number when thermalised, and each decay channel loses and each product gains '
     'its branching share of the created number. A species whose comoving density fell below 1e-10 of its first one is marked decayed and '
     'emptied for good.',
     ['inputs', 'histories'], 'every set of channels, distributions, branching ratios and steps',
     'Balance between several integrals of one step; no reliable test has a decaying meson.',
     ['common/kinematics.py'], [('Icoll_fast_decay, thermalization, scaling, has_decayed', 'common/kinematics.py')],
     note='one to two decay channels in the quick tier, three in the thorough one; kinds of reactions as generated by the package')

prop('P25', 'Objects of one run are independent of those of another',
     'A universe, particle species, or matrix element built after another one has been set up and used in the same process looks exactly '
     'as if it had been the first: no particle or reaction list, history table, default or library table is shared. A new universe is empty, '
     'with the documented history columns in their units, zero rate, first step, and the given parameters and folder.',
     ['histories', 'inputs'], 'every use of the first object and every argument of the second',
     'Sharing shows only when two objects live in one process; the reliable tests build none of them.',
     ['evolution.py', 'particles/__init__.py', 'interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py', 'library/SM.py'],
     [('Universe.__init__', 'evolution.py'), ('AbstractParticle.__init__, _defaults', 'particles/__init__.py')])

prop('P26', 'Settings come from the environment, with documented defaults and types',
     'Every setting has its documented default. A value in the environment replaces it, read as the type of the default: a switch can be '
     'turned both on and off by the usual spellings, a number is parsed as a number, and a name without default is returned as given or absent.',
     ['configurations'], 'every setting and every value of its environment variable',
     'All settings times all spellings; the reliable tests set none.',
     ['environment.py'], [('defaults, get', 'environment.py')])

prop('P27', 'The QCD transition swaps species and reactions and keeps entropy',
     'At the transition quarks and gluons leave, the given hadrons join and take on the cosmological parameters, the comoving temperature is rescaled by the '
     'cube root of the ratio of entropic degrees of freedom before and after, and the last recorded row is dropped. Exactly the given '
     'quark reactions are removed and the given ones added. Filters remove exactly the reactions of the named species or excluded kinds. '
     'Species added to a universe share its cosmology and are kept once each, heaviest first.',
     ['inputs', 'histories', 'configurations'], 'every species and reaction list',
     'Only reachable in long runs with hadrons; no reliable test reaches it.',
     ['evolution.py', 'common/utils.py'], [('QCD_transition, add_particles', 'evolution.py'), ('particle_filter, interaction_filter', 'common/utils.py')])

prop('P28', 'Reactions are neglected and weighted consistently',
     'A collision integral is skipped only when its reacting particles cannot contribute: decayed or decoupled heavy species, '
     'production of particles too heavy for the bath, or momenta outside the grid. Identical particles and crossed reactions are weighted by '
     'their multiplicity, and a skipped reaction contributes the same form of result (split or not) as a computed one.',
     ['inputs', 'configurations', 'histories'], 'every reaction, momentum and temperature',
     'Combinations of species state, temperature and reaction; no reliable test evaluates them.',
     ['common/kinematics.py'], [('Neglect3pInteraction, Neglect4pInteraction, CollisionMultiplier*, return_function', 'common/kinematics.py')])

prop('P29', 'Decoupling temperature and grid size of heavy neutral leptons',
     'The decoupling temperature of a heavy neutral lepton equates its interaction rate, suppressed by its mixing, with the expansion rate '
     'for the relativistic degrees of freedom at that temperature; grid size and resolution for it and its decay products cover the momenta '
     'they can have.',
     ['inputs'], 'every mass and mixing angle', 'A function of continuous mass and mixing with several regimes; not sampled by any reliable test.',
     ['common/kinematics.py'], [('decoupling_temperature*, grid_params_*, grid_resolution_*', 'common/kinematics.py')])

prop('P30', 'A run leaves its history on disk, periodically and at the end',
     'With an output folder, the history of the universe (and of the nuclear-code table, when set up) is written anew to its file every '
     '`export_freq` steps, and once more at the end unless export is switched off; the nuclear input is closed before the nuclear code runs. '
     'Without a folder nothing is written. Tables are written completely, in display units, under a heading naming each column and its unit.',
     ['histories', 'configurations', 'inputs'], 'every number of steps, export frequency, folder and nuclear-code set-up',
     'A property of all step counts and options; no reliable test runs the loop or writes files.',
     ['evolution.py', 'common/utils.py'],
     [('evolve, export, init_kawano', 'evolution.py'), ('savetxt', 'common/utils.py')])

prop('P31', 'Semi-analytic BBN estimates follow freeze-out and decay of neutrons',
     'Neutron freeze-out is recorded once, at the first step whose summed neutron-to-proton and proton-to-neutron rates differ by more than a '
     'factor of ten; deuterium formation at the first step not above its temperature. The helium fraction then follows once from the '
     'equilibrium ratio at freeze-out, reduced by the decay of neutrons in the meantime.',
     ['histories', 'inputs'], 'every history of rates, temperature and time',
     'Depends on the history of an evolving universe; no reliable test runs it.',
     ['semianalytic.py'], [('step_monitor', 'semianalytic.py')])

prop('P01', 'Natural units and constants are mutually consistent',
     'All units are powers of electronvolts with hbar = c = k_B = 1: energy units differ by powers of a thousand, the second, metre, kilogram, '
     'newton, 10^9 kelvin and g/cm^3 convert with their measured values. The physical constants (Planck mass and gravitational constant, '
     'Fermi constant, Weinberg angle and chiral couplings, fine structure constant, W mass, QCD scale, neutrino mass differences, matter potential, '
     'baryon-to-photon ratio, Hubble rate, weak-rate normalisation) have their measured values and dimensions in these units.',
     ['inputs'], 'every quantity expressed in any of the units',
     'A wrong unit shifts every dimensional quantity; the reliable tests are ratios of momenta and insensitive to units.',
     ['common/__init__.py'], [('UNITS, CONST', 'common/__init__.py')],
     note='values are compared with CODATA/PDG values at a tolerance per quantity, 0.1 to 5 per cent (props/P01.py)')

prop('P12', 'Reaction generation yields every crossing of a process once per species',
     'From a process of three or four particles, the generator makes, for each species and each assignment of the particles to the two sides '
     'that kinematics allows, one collision integral with that species first, carrying the kind, name and washout temperature given. '
     'Particles moved to the other side become antiparticles, the matrix element follows the particles, and equivalent crossings are merged with '
     'their matrix elements added (once for constant four-particle elements). Decays and inverse decays below threshold do not appear.',
     ['inputs', 'configurations'], 'every process of three or four particles, masses and elements',
     'A combinatorial closure over crossings and identities of particles; the reliable tests build no reaction.',
     ['interactions/__init__.py', 'interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py'],
     [('CrossGeneratingInteraction, IntegralItem', 'interactions/__init__.py'), ('FourParticleIntegral, FourParticleM', 'interactions/four_particle/__init__.py')],
     note='decided for 19 patterns of identical, conjugate and Majorana participants at closed, open and threshold masses; species, masses and couplings symbolic')

prop('P13', 'Matrix elements keep their meaning when relabelled, crossed, scaled and merged',
     'A four-particle matrix element is K + K1 (p_i.p_j)(p_k.p_l) + K2 m_i m_j (p_k.p_l) for its momentum order. Relabelling it to a reaction keeps '
     'its value, except that the mass term changes sign when exactly one of its two particles has changed sides. Scaling multiplies all terms, and '
     'elements that may be merged have the sum of both as value. Standard and sterile elements carry 32 G_F^2 (times the squared mixing '
     'angle). Collision integrals of the same species and reaction become one with the sum of their elements.',
     ['inputs'], 'every ordering of the four momenta, every crossing pattern and all couplings',
     'All 24 orderings times crossings times couplings; the reliable tests use one ordering.',
     ['interactions/__init__.py', 'interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py', 'library/SM.py', 'library/NuMSM.py'],
     [('FourParticleM', 'interactions/four_particle/__init__.py'), ('IntegralDeduplicator', 'interactions/__init__.py'), ('WeakM', 'library/SM.py'), ('SterileM', 'library/NuMSM.py')])

prop('P19', 'Standard weak reactions have the processes and couplings of the SM',
     'The reactions the library generates for given leptons and neutrinos are those of low-energy weak theory, each once: scattering of each pair of '
     'neutrinos, annihilation of each neutrino pair into each charged lepton with the left coupling of its flavour (+1/2 for the own '
     'flavour, -1/2 otherwise) and the right coupling (sin^2 of the Weinberg angle), charged-current exchange between different lepton flavours, and the pion decays, '
     'with squared matrix elements in the right momenta.',
     ['inputs', 'configurations'], 'every selection of leptons and neutrinos',
     'The whole table of couplings and momentum orderings; the reliable tests use one made-up element.',
     ['library/SM.py'], [('interactions.neutrino_interactions, lepton_interactions, decay_charged_pion', 'library/SM.py')])

prop('P32', 'Particle tables agree with measured particle properties',
     'Every library species has the statistics, number of states (antiparticles included), charge, mass, name and own-antiparticle flag of the particle it '
     'names; leptons their flavour, quarks their family, neutrinos a decoupling temperature of a few MeV, mesons their decay constant and type, unstable ones '
     'lifetime and branching ratios, which do not add to more than one. The quark mixing matrix is the measured one and unitary. '
     'Sterile neutrinos take the given mass and mixing angle.',
     ['configurations'], 'every species of the library',
     'A table of facts no reliable test reads.',
     ['library/SM.py', 'library/NuMSM.py'], [('particles', 'library/SM.py'), ('particles.sterile_neutrino, dirac_sterile_neutrino', 'library/NuMSM.py')])

prop('P33', 'Sterile neutrino reactions have the right processes, mixings and couplings',
     'For the given mixing angles, the library generates the reactions of a Majorana or Dirac sterile neutrino with every active flavour it mixes with and no other: '
     'scattering, neutral- and charged-current leptonic reactions, quark reactions, and two-body decays to mesons, each with squared mixing of its flavour, '
     'the couplings of the particles involved, quark mixing, and squared matrix elements reproducing the known widths. Particles decaying within '
     'a step get creation or decay kinds, muons and taus only enter in pairs, and the reactions of the decay products are added once, creation and '
     'decay only.',
     ['inputs', 'configurations'], 'every mixing pattern, both kinds of sterile neutrino, every selection of leptons, quarks and mesons',
     'A combinatorial table of couplings and crossings; no reliable test builds a sterile neutrino.',
     ['library/NuMSM.py', 'library/SM.py'],
     [('interactions.sterile_leptons_interactions, sterile_hadrons_interactions, sterile_quark_interactions, interactions_decay_products', 'library/NuMSM.py')],
     note='sterile masses 34, 300 and 1500 MeV; mixing with one flavour or all; which of two equivalent integrals of a scattering reaction is kept follows the package')

prop('P34', 'Meson decays: all channels once, charge conserved, widths as tabulated',
     'For given primary mesons the library lists every decay channel of each of them, of the mesons they decay into, and of charged pions (with '
     'the lepton reactions unless muons are handled separately) exactly once and with conserved electric charge, and the constant matrix elements reproduce, '
     'through the phase space, the tabulated branching ratio over the lifetime of each channel.',
     ['inputs', 'configurations'], 'every set of primary mesons',
     'Closure over decay chains and consistency of couplings with lifetimes; no reliable test builds a meson.',
     ['library/SM.py'], [('interactions.meson_interactions and the decays it calls', 'library/SM.py')],
     note='widths agree within 4 per cent; no symmetry factor for identical particles in the final state (the convention of the package)')

prop('P15', 'Collision kernels are the closed forms of their defining integrals',
     'The kernels D1, D2, D3 of the four-particle collision integral equal, for all momenta, the oscillating integrals that define them, Db1 and Db2 '
     'their derivatives at a vanishing first momentum, and D and Db combine them, with energies, masses, signs of the sides and couplings, into the '
     'angular average of the squared matrix element for every ordering of the particles; Db is the limit of D/(p0 E0) for a particle at rest.',
     ['inputs', 'configurations'], 'every four momenta, masses, couplings, all 24 orderings and sides of the particles',
     'An identity between piecewise polynomials in four variables with many cases; the compiled module has no test that can run.',
     ['interactions/four_particle/cpp/Ds.cpp', 'interactions/four_particle/cpp/integral.h'],
     [('D1, D2, D3, Db1, Db2, D, Db', 'interactions/four_particle/cpp/Ds.cpp')],
     note='momenta non-negative; off the boundaries between the cases, where the integrand is not continuous')

prop('P16', 'Collision integrals cover the kinematic region with the right integrand',
     'For every momentum of the grid the three- and four-particle integrators return the integral, over the momenta that energy and momentum conservation '
     'allow, of phase space times kernel times the distribution functional of the requested kind (gain, loss or both, with blocking or enhancement). '
     'The result of one momentum does not depend on the others or on the number of threads, a quadrature that does not converge raises, and workspaces are released.',
     ['inputs', 'configurations', 'schedules'], 'every decay, scattering and creation reaction, masses, distributions, kinds and thread schedules',
     'Kinematic cases are continuous and threads race only on some schedules; the extensions have no test that can run.',
     ['interactions/four_particle/cpp/integral.cpp', 'interactions/three_particle/cpp/integral.cpp', 'interactions/four_particle/cpp/integral.h',
      'interactions/three_particle/cpp/integral.h'],
     [('integration', 'interactions/four_particle/cpp/integral.cpp'), ('integration_3', 'interactions/three_particle/cpp/integral.cpp')],
     note='one or two momenta; the regularised upper bounds of particles at rest and the grid cut-offs of the outer momentum are the documented ones')

prop('P17', 'Compiled integrators and Python code agree on their interface',
     'Both compiled modules export the integrators, interpolation, search and kernels and the record types under the names, keyword arguments, defaults and kinds of integrals that the '
     'package documents; the kinds have the same values in both modules, since Python passes one to the other, and every call in the package fits the signature.',
     ['configurations'], 'every exported function, record and kind, every call of them in the package',
     'The modules are linked at run time by name only; the reliable tests import none of them.',
     ['interactions/four_particle/cpp/integral.cpp', 'interactions/three_particle/cpp/integral.cpp', 'interactions/four_particle/integral.py', 'interactions/three_particle/integral.py'],
     [('PYBIND11_MODULE', 'interactions/*/cpp/integral.cpp'), ('calls of the modules', 'interactions/*/integral.py')])

prop('P35', 'Distribution lookup in the integrators: search and interpolation on the grid',
     'In both compiled modules the search returns the node of a momentum or the two nodes around it, and tells momenta below and above the grid apart. '
     'The distribution is the thermal one in equilibrium; otherwise the node value at a node, between nodes the interpolation that is exact for thermal distributions of either '
     'statistics and zero where it is undefined, and a Boltzmann tail above the grid; below the grid it raises.',
     ['inputs'], 'every strictly increasing grid, distribution, momentum, mass, temperature and statistics',
     'Boundary cases of the search and of the logarithm are a continuum of inputs; the extensions have no test that can run.',
     ['interactions/four_particle/cpp/integral.cpp', 'interactions/three_particle/cpp/integral.cpp'],
     [('binary_find, distribution_interpolation', 'interactions/*/cpp/integral.cpp')],
     note='grids of two to five nodes for the search (seven thorough), two or three for the interpolation (four thorough)')

prop('P39', 'Arrays that several objects hold are not changed behind their back',
     'A computation leaves the momentum grid of every species and the rows of every history table as they were: nothing changes them in place, through a view or as an argument. '
     'A stored array (distribution, collision rate, previous distribution) keeps its value when another one is updated.',
     ['histories'], 'every universe, species and sequence of steps',
     'numpy slices, names and arguments share memory; a change in place shows up in another species or a later step, only for some grids and reactions.',
     ['particles/__init__.py', 'common/kinematics.py', 'evolution.py', 'interactions/', 'common/utils.py', 'common/integrators/'],
     [('DistributionParticle.update_distribution', 'particles/__init__.py'), ('grid_cutoff_4p', 'common/kinematics.py'), ('Universe.update_distributions', 'evolution.py')],
     note='calls are resolved by name; whether a compiled function writes to its arguments is settled by their types (vectors by value or const reference)')

prop('P36', 'Effective number of neutrinos and abundances reach the known values',
     'A run of the standard model gives the effective number of neutrinos, helium fraction and neutrino spectra of the literature within the quoted numerical accuracy.',
     ['configurations'], 'standard and sterile-neutrino cosmologies, step sizes and grids',
     'Only full runs of hours give these numbers, and they depend on the compiled extensions.',
     ['evolution.py', 'kawano.py'], [('Universe.evolve', 'evolution.py')],
     na='the result of integrating a stiff system numerically; no static argument bounds accumulated discretisation and quadrature errors. The equations, steps and couplings it '
        'follows from are decided by P02-P16, P19-P21, P33 and P34.')

prop('P37', 'Energy and particle number are conserved along a run',
     'Total energy obeys the continuity equation and elastic reactions conserve particle number along a run, within the tolerance of the time step.',
     ['histories'], 'every universe and step size',
     'Conservation holds up to discretisation errors that accumulate over thousands of steps.',
     ['evolution.py', 'particles/NonEqParticle.py'], [('make_step', 'evolution.py')],
     na='the continuous equations conserve (their terms are decided by P06, P10, P14, P16) but the discrete run only does so within a tolerance that depends on grid, step and '
        'quadrature errors, which static analysis cannot bound.')

prop('P38', 'Quadrature and interpolation errors stay below the requested tolerance',
     'Integrals over momenta and collision integrals are accurate to the requested relative tolerance, and interpolated collision integrals between nodes agree with the exact ones.',
     ['inputs'], 'every distribution, mass and momentum grid',
     'The error depends on the smoothness of run-time distributions.',
     ['common/integrators/__init__.py', 'interactions/four_particle/cpp/integral.cpp'], [('quadrature', 'common/integrators/__init__.py')],
     na='a bound on floating-point and quadrature error needs derivatives of run-time data; only exactness of the maps (P11) and the reaction to a failed quadrature (P16) are static facts.')
