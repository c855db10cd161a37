# (id, title, statement, quantifier over, quantifier text, why tests can't, files, mechanisms)
I = ["inputs"]
P = []

def prop(*a):
    P.append(a)

prop("P01", "Quantum numbers of a particle code follow from its quark content",
     "For every valid particle code, the charge, baryon number, strangeness, charm, bottomness, isospin projection, spin and the fractions of heavy or strange quarks reported are those implied by the code's quark content (for a nucleus: by its nucleons and Lambdas). Leptons and bosons carry their own charge and no hadronic quantum number. Asking for an unknown flavour is refused.",
     I, "all valid PDG codes (every digit combination, both signs, hadrons, leptons, bosons, nuclei and hypernuclei)",
     "the tests look at some twenty codes; the property ranges over every digit combination",
     ["src/include/smash/pdgcode.h", "src/pdgcode.cc"],
     [("digit decoding of the PDG code", "PdgCode accessors in pdgcode.h"), ("net quark counting", "PdgCode::net_quark_number, quark_content")])
prop("P02", "Charge conjugation flips every additive quantum number",
     "The antiparticle of a particle has the opposite charge, baryon number, strangeness, charm, bottomness, isospin projection and quark numbers and the same spin; conjugating twice gives the particle back, and two codes are each other's antiparticle exactly when one is the conjugate of the other. A code is its own antiparticle exactly when its additive quark content vanishes and its type admits no conjugate.",
     I, "all valid PDG codes", "the tests sample a handful of codes", ["src/include/smash/pdgcode.h"],
     [("antiparticle code", "PdgCode::get_antiparticle, is_antiparticle_of, has_antiparticle")])
prop("P03", "Particle codes round-trip and malformed ones are refused",
     "A particle code built from its number or its text gives that same number and text back, equal codes compare equal and distinct ones differ, with a strict total order. Text that is not an optionally signed decimal (or hexadecimal-digit) number of an admissible length and with admissible digits is refused and never yields a code.",
     I, "all 7-digit and 10-digit codes, all strings up to the longest admissible length", "tests only contain some examples of codes and malformed strings",
     ["src/include/smash/pdgcode.h", "src/pdgcode.cc"],
     [("text parsing", "PdgCode::set_from_string, get_digit_from_char"), ("packing", "PdgCode::get_decimal, from_decimal, code, dump")])
prop("P04", "Lorentz boosts preserve the Minkowski geometry",
     "Boosting four-vectors by any velocity below that of light preserves all their scalar products, is linear, is undone by the opposite boost, leaves components across the velocity alone and brings a massive particle to rest in its own frame with its mass as energy. Sums, differences and multiples of four-vectors are taken componentwise.",
     I, "all velocities with |v|<1 and all four-vectors (real arithmetic)", "tests sample a grid of velocities and vectors",
     ["src/fourvector.cc", "src/include/smash/fourvector.h"], [("boost", "FourVector::lorentz_boost"), ("Minkowski product", "FourVector::Dot, sqr, abs")])
prop("P05", "Rotations are rigid and directions are unit vectors",
     "Rotating three-vectors by any Euler angles or about a coordinate axis preserves scalar products and handedness, and turning the z axis to a given direction does so. Directions given by azimuth and polar cosine are unit vectors; azimuths are reduced by whole turns into one turn, and polar cosines outside [-1,1] are refused.",
     I, "all vectors and angles (real arithmetic)", "tests sample particular angles",
     ["src/threevector.cc", "src/include/smash/threevector.h", "src/include/smash/angles.h"],
     [("rotations", "ThreeVector::rotate, rotate_around_y/z, rotate_z_axis_to"), ("range reduction", "Angles::set_phi, set_costheta, threevec")])
prop("P06", "Two-body kinematics and beam-energy conversions are mutually consistent",
     "The centre-of-mass momentum of two particles makes their energies add up to the available energy and vanishes below threshold. Converting a lab momentum, total energy or kinetic energy (for a fixed target or two head-on beams) to the Mandelstam s gives the square of the total four-momentum, and converting back gives the lab momentum again. The velocities of projectile and target in the centre-of-velocity and fixed-target frames reproduce s, and the momentum-transfer limits are those of forward and backward scattering.",
     I, "all masses and energies (real arithmetic)", "tests evaluate a few energies for equal masses",
     ["src/include/smash/kinematics.h", "src/collidermodus.cc"],
     [("pCM, s_from_*, plab_from_s, get_t_range", "src/include/smash/kinematics.h")])

prop("P07", "Two- and three-body final states conserve four-momentum and are on shell",
     "Sampling a two-body final state of any energy above threshold gives both particles their prescribed masses, positive energies that add up to the available energy and opposite momenta in the centre of mass. A moving particle decaying in two gives products of the species of the decay mode on their mass shells, whose four-momenta add up to the parent's, which start at the place of the parent and are formed at the time of the decay. Sampled three-body phase space conserves energy and momentum with all particles on their mass shells.",
     I, "all masses, energies above threshold, parent momenta and drawn directions (real arithmetic)", "the final states are not in the stable tests, and random sampling shows single directions",
     ["src/action.cc", "src/decayaction.cc"],
     [("angular sampling", "Action::sample_angles, sample_2body_phasespace"), ("decay and boost back", "DecayAction::generate_final_state"), ("three-body phase space", "Action::sample_manybody_phasespace_impl")])
prop("P08", "Actions breaking conservation are refused, others recorded faithfully",
     "Totals of particles are the sums of their four-momenta, charges, isospin projections, strangeness, charm, bottomness and baryon numbers. An action whose outgoing total differs from the incoming one in any of these is refused, except for string processes, free-for-all actions and decays of stable particles; string processes report their energy violation instead. Carrying out an action replaces (or, for elastic scattering and wall crossings, updates) exactly the incoming particles by the outgoing ones with their momenta, positions, collision counts and histories, leaves all other particles alone, and makes the action invalid thereafter unless it was a wall crossing or fluidization.",
     ["inputs", "histories"], "all codes, momenta and totals; all process types for six combinations of species; lists of three particles with any history", "action.cc is not covered by stable tests, and a check that only fires on violations is exercised by violations only",
     ["src/action.cc", "src/include/smash/quantumnumbers.h", "src/quantumnumbers.cc"],
     [("totals", "QuantumNumbers::add_values, operator=="), ("refusal", "Action::check_conservation"), ("execution", "Action::perform, Action::is_valid")])
prop("P09", "The particle list holds exactly the particles put in and not yet taken out",
     "After any sequence of inserting, creating, removing, replacing and updating, the particle list reports as its size the number of particles put in and not yet removed, iterating visits each of them exactly once with its stored properties and nothing else, removing or replacing one leaves all others untouched, ids are never handed out twice, a copied particle is recognised as current exactly as long as the list entry has not been removed or changed by an interaction, and an emptied list starts over.",
     ["histories"], "all histories of operations; the representation invariant is preserved from every list state of any size and any pattern of holes", "no test of the particle list is in the stable suite, and histories interact through the list of free slots",
     ["src/particles.cc", "src/include/smash/particles.h"],
     [("slot reuse", "Particles::insert, remove, replace, update; dirty_ and data_size_"), ("validity of copies", "Particles::is_valid, lookup")])
prop("P10", "Clocks tick exactly, never run backwards and stop at the end",
     "A uniform clock shows start + ticks * step in whole units of its resolution, also after changing the step, jumping ahead or resetting; it shows and announces no time beyond the end, its remaining step duration always leads to the announced next time, and comparisons use the unclipped time. A custom clock visits the given times in ascending order, skipping those before the start. Non-positive steps, an end not after the start, turning back, running past the last custom time and tick overflow are refused.",
     ["inputs", "histories"], "all start times, steps, ends, tick counts and jumps (within the representable time range), all lists of custom times of up to three entries", "tests use a few clocks with decimal steps",
     ["src/include/smash/clock.h"], [("integer time base", "UniformClock::convert, present_internal_time"), ("sorted custom times", "CustomClock")])

prop("P11", "The particle grid presents every close pair, and never the wrong ones",
     "The grid cells searched for interactions hold every particle exactly once. Any two particles closer than the interaction length used for the cell size (in a periodic box: also through the boundaries) are found in the same or in adjacent cells and presented together, exactly once as long as there are at least three cells along each periodic direction. Only adjacent cells are presented together, each cell is searched once and meets each of its neighbours once, and the reported cell volume is that of one cell. Without periodic boundaries no pair is presented twice. The number of cells does not exceed the number of particles when it is limited, particles that cannot interact within the time step because they are not formed are left out unless asked for, and a periodic box with no room for two interaction lengths is refused.",
     I, "all positions of particles, box and interaction lengths (real arithmetic) with up to four cells in each direction", "the grid is not in the stable tests; a missed pair shows for particular positions relative to cell borders only",
     ["src/grid.cc", "src/include/smash/grid.h"],
     [("cell size and count", "GridBase::find_min_and_length, Grid::Grid"), ("search over cells", "Grid::iterate_cells, build_cells")])

prop("P12", "Periodic boundaries move particles by whole periods and lose none",
     "In a periodic box every coordinate at most one box length outside is brought inside by a whole number of box lengths, and a move is reported exactly when a coordinate was outside. A moving particle has a wall crossing within the time step exactly if it would leave the box; the crossing happens when its first coordinate reaches the wall it flies towards and puts it at the opposite wall with unchanged momentum. Imposing the boundary conditions on all particles counts those moved and changes nothing else. Two particles interact halfway along their shortest connection through the boundaries.",
     I, "all box lengths, positions, velocities and time steps (real arithmetic)", "wall crossings and boundary conditions are not in the stable tests",
     ["src/wallcrossingaction.cc", "src/boxmodus.cc", "src/include/smash/algorithms.h", "src/action.cc"],
     [("wall crossing search", "WallCrossActionsFinder::find_actions_in_cell"), ("wrapping", "enforce_periodic_boundaries, BoxModus::impose_boundary_conditions"), ("interaction point", "Action::get_interaction_point")])
prop("P13", "Propagation, expansion and mean fields move particles as prescribed",
     "Free streaming takes every particle to the given time along its velocity and changes nothing else (nucleons of the initial nuclei that have not collided move with their nucleus when Fermi motion is frozen). Propagating back to a common earlier time keeps momenta and marks particles as unformed until the time they were given at. The Hubble rate is that of no expansion, a radiation- or a matter-dominated universe; expanding space stretches positions and redshifts momenta by it and keeps particles on their mass shells. Mean fields change momenta by charge (or baryon number, isospin) times the force of the fields at the particle (taken from the lattice where available) times the time step and leave mass and position; mesons feel no nuclear potential and particles outside the region of the fields feel no force. No particle is lost.",
     I, "all positions, momenta, fields, times and time steps (real arithmetic)", "propagation is not in the stable tests",
     ["src/propagation.cc", "src/include/smash/propagation.h", "src/include/smash/potentials.h"],
     [("streaming", "propagate_straight_line, backpropagate_straight_line"), ("expansion", "calc_hubble, expand_space_time"), ("mean fields", "update_momenta")])
prop("P14", "Lattices map points to cells consistently and differentiate correctly",
     "Cells of a lattice are numbered without gaps or clashes with x running fastest; the neighbours of a cell wrap around with periodic boundaries and stay at the edge otherwise. The value at a point is that of the cell containing it, periodically continued if wanted, or none outside. Visiting the cells around a point (in a sphere or cube) reaches every cell whose centre is within the radius once and no cell further away; visiting nearest neighbours reaches the cell of the point and its six neighbours. Gradients and four-gradients are the finite differences between neighbouring cells over their distance (one-sided at the edges, periodic if wanted) and change over the time step; they need a lattice with at least two cells in each direction and a matching result lattice. Integrals are sums times cell volume. Resizing makes a lattice with the size, origin and number of cells asked for with all nodes reset, and malformed sizes are refused.",
     I, "all lattice sizes, origins, points, radii and node values (real arithmetic); numbers of cells symbolic for indexing, up to four per direction otherwise", "the lattice tests use one cubic lattice and fixed points",
     ["src/include/smash/lattice.h"],
     [("indexing", "RectangularLattice::index1d, index_left…, value_at"), ("neighbourhoods", "iterate_in_rectangle, iterate_in_cube, iterate_nearest_neighbors"), ("derivatives", "compute_gradient_lattice, compute_four_gradient_lattice"), ("resizing", "reset_and_resize")])
prop("P15", "Formation times, cross-section scaling and histories follow the rules",
     "The cross-section scaling factor of a particle is its initial factor before formation begins and one once formed; in between it switches at the formation time or, with a positive formation power, grows steadily with that power of the elapsed fraction and never leaves the range from the initial factor to one. Products of an action among formed hadrons are formed at once with full cross section; if an incoming hadron is not formed yet, products inherit the begin and end of formation and the factor of the hadron forming last (string fragments multiply factors and form at the later of both times), and string fragments of formed hadrons keep their own times. A particle remembers type, id and time of its last process, the number of its collisions and its parents (one for decays, two for two-body processes, unchanged for elastic ones); wall crossings and fluidization tags do not count as collisions. Setting momenta puts particles on their mass shell, and boosting a particle boosts momentum and position alike.",
     ["inputs", "histories"], "all times, factors and powers (real arithmetic), all process types, one to three incoming particles", "particle data and actions are not in the stable tests",
     ["src/particledata.cc", "src/include/smash/particledata.h", "src/action.cc"],
     [("scaling factor", "ParticleData::xsec_scaling_factor"), ("products", "Action::assign_formation_time_to_outgoing_particles"), ("history", "ParticleData::set_history")])

prop("P16", "Unstable particles decay into open channels at the right rate",
     "The total width of a particle is the sum of its partial widths. At the pole these are branching ratio times width, below the lowest mass of their products they vanish, and elsewhere they follow the mass dependence of the channel; dileptonic ones vanish below twice the lepton mass. Only channels above threshold (with the energy available in mean fields) are open, hadronic and dileptonic ones apart. A particle decays within a time step exactly if the drawn waiting time, exponential with rate width over Lorentz factor and the lifetime modifier, ends in it, counted from when it is formed; at the end every unstable particle may decay finally. The decay mode is drawn proportionally to its width. Branching ratios add up to one after renormalisation, repeated modes are merged, the lowest mass is that of the lightest mode.",
     I, "all masses, momenta, widths, time steps and drawn numbers (real arithmetic), for lists of up to four modes and several species", "decays are not in the stable tests; they depend on continuous masses and random draws",
     ["src/decayactionsfinder.cc", "src/particletype.cc", "src/decaymodes.cc", "src/decaytype.cc", "src/include/smash/processbranch.h"],
     [("widths", "ParticleType::total_width, get_partial_width(s), DecayType::width"), ("decay in time", "DecayActionsFinder::find_actions_in_cell"), ("branching ratios", "DecayModes::add_mode, renormalize"), ("choice of mode", "Action::choose_channel")])
prop("P17", "Actions are carried out in the order of their times",
     "The queue of actions hands out, and removes, the action with the earliest time first, whatever the order in which actions were added one by one or in bulk and removed in between; nothing is lost or handed out twice, emptying it leaves none, and asking an empty queue for its earliest action is refused. Actions compare by their times of execution, which are the current time of their particles plus the delay until the action.",
     ["histories"], "all execution times (real arithmetic); histories of up to five additions with removals in between (bounded in length)", "the queue is not in the stable tests, and heap order shows only in certain orders of insertion and removal",
     ["src/include/smash/actions.h", "src/include/smash/action.h"],
     [("queue", "Actions::insert, pop, is_empty, earliest_time, clear"), ("order", "Action::operator<, time_of_execution")])
prop("P18", "Densities and currents count every charge once, covariantly smeared",
     "The weight of a particle in a density of a given type is its baryon number, charge, strangeness, isospin, or one for hadrons or pions, and nothing for others. The smearing kernel is the Lorentz-covariant Gaussian, which depends on the distance in the rest frame of the particle, vanishes beyond the cutoff and has the prefactor that normalises it; its gradient is the derivative of it. The current at a point is the sum over the particles (or participants, if so configured) of weight times velocity times kernel, with its gradients, curl and time derivative accordingly, the density is taken in the local rest frame of positive and negative charges apart; so on each node of a lattice. Smearing a particle over neighbouring cells or by triangles keeps its whole charge on a periodic lattice. Ensembles add up, and finite differences in space and time are those of neighbouring nodes and of the last step.",
     I, "all positions, momenta, masses, kernel parameters and smearing weights (real arithmetic), for up to three particles and lattices of up to 125 nodes", "densities are not in the stable tests; lattice smearing has cases for each position within a cell and each boundary",
     ["src/density.cc", "src/include/smash/density.h", "src/include/smash/lattice.h"],
     [("weights", "density_factor"), ("kernel", "unnormalized_smearing_factor, smearing_factor_norm"), ("currents", "current_eckart, DensityOnLattice"), ("lattice update", "update_lattice, update_lattice_with_list_of_particles")])

prop("P19", "Particles collide exactly if and when the collision criterion says so",
     "Two particles approach each other most closely at the time that minimises their distance, in the computational frame or covariantly; the transverse distance is that of closest approach in their centre-of-mass frame (the covariant one is invariant). They collide if this happens within the time step and their distance squared is below cross section over pi (and never beyond the maximum), or, stochastically, with the probability cross section times relative velocity times time step over cell volume and test particles; scaled for particles that are not formed yet. Nucleons of the same nucleus that have not collided, products of the same action, and particles that are in the core do not collide where excluded. Every pair in a cell or of neighbouring cells is considered exactly once. Energy, relative velocity and momentum of the pair are the relativistic ones.",
     I, "all positions, momenta, times, cross sections and drawn numbers (real arithmetic), cells of up to three particles", "collision finding needs Pythia and is not built here at all",
     ["src/scatteractionsfinder.cc", "src/scatteraction.cc", "src/include/smash/scatteractionsfinder.h"],
     [("criterion", "ScatterActionsFinder::collision_time, check_collision_two_part"), ("pairs", "find_actions_in_cell, find_actions_with_neighbors, find_actions_with_surrounding_particles"), ("kinematics", "ScatterAction::transverse_distance_sqr, cov_transverse_distance_sqr, relative_velocity, gamma_cm")])
prop("P20", "Two-body scatterings conserve energy and momentum and pick their channel right",
     "Sampled products of two-body scatterings are back to back, on their mass shells and share the available energy; the elastic angular distribution depends on the lab momentum nucleons with the same centre-of-mass momentum would have. Elastic scatterings keep species, identities, positions, histories; resonances get the whole energy as mass; all final states conserve energy and momentum, start at the interaction point in the computational frame and keep membership in the core; malformed channels are refused. Channels are asked for once, their cross sections add up (scaled for particles not formed yet), strings and pseudo-resonances fill exactly the gap to the parametrised cross section where wanted, and rescaled channels add up to the parametrised total in proportion.",
     I, "all positions, cross sections, sampled momenta and energies (real arithmetic); for three states of motion of the pair", "scatterings need Pythia and are not built here at all",
     ["src/scatteraction.cc", "src/include/smash/scatteraction.h", "src/action.cc"],
     [("final states", "ScatterAction::generate_final_state, sample_angles"), ("channels", "ScatterAction::add_all_scatterings, rescale_outgoing_branches, try_find_pseudoresonance")])
prop("P21", "Reactions of three to five particles conserve charges and obey detailed balance",
     "Reactions offered to three, four or five particles in a cell conserve charge, baryon number and strangeness, are exactly those of the documented kinds (mesons to one, deuteron, A=3 nuclei and nucleon-antinucleon formation with catalysts) whatever the order of the particles, none unless enabled, and carry the degeneracy factor given by spin states and permutations of equal particles. Their probabilities follow from the inverse cross section or width, phase space, energies, time step and cell volume, and are scaled for particles not formed yet. Final states conserve energy and momentum and start at the interaction point; malformed channels are refused.",
     I, "all combinations of the species concerned, all probabilities, widths, cross sections, time steps and volumes (real arithmetic); three-body phase space by bounded evaluation", "multi-particle reactions need Pythia and are not built here at all",
     ["src/scatteractionmulti.cc", "src/include/smash/scatteractionmulti.h"],
     [("reactions", "ScatterActionMulti::add_possible_reactions"), ("probabilities", "probability_three_to_one, three_to_two, four_to_two, five_to_two, calculate_I3"), ("final states", "ScatterActionMulti::generate_final_state")])

NA = []

NOTE = {"*": "All obligations of the listed contracts are discharged for all inputs, on the LLVM IR clang generates from /repo's current source. Floating-point operations are treated as real arithmetic unless a contract says otherwise; transcendental library functions are modelled by the axioms listed in the evidence. Trusted: clang's front end, the VC generator, the solvers."}
