#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run after editing the table below)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': s} for s in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


TR = 'wake_t/tracking/tracker.py'
FE = 'wake_t/beamline_elements/field_element.py'
PB = 'wake_t/particles/particle_bunch.py'
NF = 'wake_t/fields/numerical_field.py'
RZ = 'wake_t/fields/rz_wakefield.py'
BL = 'wake_t/beamline_elements/beamline.py'
TM = 'wake_t/beamline_elements/tm_elements.py'
OD = 'wake_t/diagnostics/openpmd_diag.py'
LP = 'wake_t/physics_models/laser/laser_pulse.py'

prop('P01', 'Every bunch is advanced over exactly the length of the element',
     'Tracking through a field-based element advances every bunch by contiguous forward steps, without gap or overlap, from the entrance of the element to exactly its end, so that its propagation distance grows by exactly the element length and every particle moves for exactly the corresponding time. This holds whatever the number of bunches, their time steps (constant, adaptive, or longer than the element), the pusher, the number of outputs, and the update periods of the fields.',
     ['configurations', 'schedules', 'inputs'],
     'every element length, number of bunches, constant or adaptive bunch step (including steps longer than the element), pusher, number of outputs (including none), output pre-push setting and set of field update periods',
     'Tests track a few fixed configurations with round step sizes and look only at final beam moments; they never look at the sequence of steps, nor at steps that do not divide the element.',
     [TR, FE, PB], [('event loop and end-of-element clipping', TR + ':do_tracking'), ('bunch step', TR + ':evolve_bunch')],
     ['time of each bunch', 'next step of each bunch'], ['gather calls received by the fields of the element', 'propagation distance and particle coordinates'])

prop('P02', 'Bunch steps follow the requested constant or adaptive time step',
     'Each step of a bunch equals the time step requested for that bunch: its constant value or, if adaptive, the value given by the adaptive rule for the state of the bunch at the start of the step; it may only be shortened, to land on an output (when bunches are advanced to the outputs) or on the end of the element. With several bunches each one follows its own entry of the list of time steps, and a list of the wrong size is rejected before anything is tracked.',
     ['configurations', 'schedules'],
     'every combination of constant and adaptive steps for any number of bunches, with outputs and field updates falling anywhere between steps',
     'Tests use one bunch with an automatic step or equal steps and compare only final beam parameters, which barely depend on the step.',
     [TR, FE, 'wake_t/beamline_elements/plasma_stage.py'], [('step bookkeeping', TR + ':do_tracking'), ('adaptive update and clipping', TR + ':evolve_bunch'), ('list of steps', FE + ':track'), ('automatic step of plasma elements', 'wake_t/beamline_elements/plasma_stage.py:_get_optimized_dt')],
     ['next step of each bunch'], ['gather calls received by the fields of the element', 'calls of the adaptive rule'])

prop('P03', 'Numerical fields are recomputed exactly on their update schedule',
     'During every tracking, each numerically computed field is evaluated at the element entrance and then at every multiple of its update period up to and including the element end, each evaluation advancing its own clock by one period and seeing every bunch at its latest position. Fields that require even updates get the largest period not above the requested one that divides the element, so that their last evaluation falls exactly on its end; tracking the same element again repeats the same schedule from the entrance.',
     ['configurations', 'schedules', 'histories'],
     'every combination of field periods, bunch steps, outputs, and repeated trackings of one element',
     'Tests check physics at the end of one tracking; a missing, duplicated or shifted update changes results by less than their tolerances and repeated tracking is not tested at all.',
     [TR, NF, RZ], [('field update in event loop', TR + ':do_tracking'), ('initialise/evolve/calculate', NF + ':update'), ('even updates', NF + ':adjust_dt'), ('density lookup at field time', RZ + ':_calculate_field')],
     ['clock of each field', 'initialised flag'], ['evaluations requested from a numerical field', 'density function calls of a plasma stage'])

prop('P04', 'Forces come from the current fields at the right time and order of events',
     'Within every bunch step from t1 to t2 the forces are evaluated at the instants of the chosen pusher (the midpoint for Boris; start, twice the midpoint, and end for RK4) using the most recent evaluation of each field made before t2 and never a later one. When events coincide, bunches are advanced first, then fields are recomputed, then outputs are taken, so that no field sees a bunch from the future and no output shows an outdated field.',
     ['schedules', 'configurations'],
     'every interleaving of bunch steps, field updates and outputs produced by any set of periods',
     'Tests only see the final beam; using a field one update too old or too new, or swapping coincident events, stays within their tolerances.',
     [TR, 'wake_t/particles/push/boris_pusher.py', 'wake_t/particles/push/runge_kutta_4.py'], [('selection of the next event', TR + ':do_tracking'), ('gather times', 'wake_t/particles/push/boris_pusher.py:apply_boris_pusher'), ('gather times', 'wake_t/particles/push/runge_kutta_4.py:apply_rk4_pusher')],
     ['time of each bunch, field and output'], ['gather and update calls received by fields'])

prop('P05', 'Outputs are taken at evenly spaced positions without disturbing the bunch',
     'A field-based element with n outputs returns, for each bunch in the given order, n+1 snapshots: the initial state and one at each k/n of the length, where the bunch has been advanced exactly to that position unless advancing before outputs is disabled, in which case it is shown as after its last regular step. The last snapshot equals the final state of the bunch, and with that option disabled the evolution of the bunch does not depend on the number of outputs.',
     ['configurations', 'schedules'],
     'every number of outputs, time step, number of bunches and pre-push setting',
     'Tests count output files in one or two configurations; they do not check where along the element each output was taken.',
     [TR, FE], [('output events', TR + ':do_tracking'), ('snapshots', TR + ':generate_diagnostics')],
     ['output counter', 'snapshots'], ['returned list of bunches', 'openPMD files'])

prop('P06', 'A beamline is the sequential composition of its elements',
     'Tracking a beamline gives the same final bunches, the same returned outputs in the same order and the same propagation distance as tracking its elements one after the other by hand, for any list of elements of any kind. Nesting beamlines or splitting one beamline into several consecutive ones makes no difference.',
     ['programs', 'configurations'],
     'every sequence of drifts, dipoles, quadrupoles, sextupoles, lenses, field elements and plasma stages, and every way of grouping them into beamlines',
     'Tests compare one beamline of three elements.',
     [BL, FE, TM], [('loop over elements', BL + ':track')],
     ['position along the beamline'], ['returned outputs', 'final bunch'])

prop('P07', 'openPMD output forms one gapless, globally timed series',
     'All outputs written through one diagnostics object, over any sequence of elements and beamlines, are numbered consecutively from zero with one file per output, and each is stamped with the global time and longitudinal offset of the bunch, i.e. the total length of the elements already completed plus the position inside the current one. Output with several species of the same name is rejected without writing a file or consuming a number. Tracking without diagnostics writes nothing.',
     ['programs', 'histories', 'fault_sequences'],
     'every sequence of elements sharing one diagnostics object, including rejected outputs in between',
     'Tests check the number of files of two beamlines, not the times, offsets, or numbering after a rejected output.',
     [OD, TR, TM, BL], [('iteration index and time', OD + ':write_diagnostics'), ('element offset', OD + ':increase_z_pos'), ('name check', OD + ':check_species_names')],
     ['next iteration number', 'accumulated position'], ['HDF5 files'])

prop('P08', 'openPMD output records the exact state at the time of the output',
     'Every output file holds, for every bunch, the unmodified coordinates, the momenta in SI units, weights, charge and mass of its particles at that output, and for every plasma field the grid data of its latest evaluation together with the grid spacing and the position of the grid in the laboratory, each labelled with its physical dimension. A bunch read back from a file is the bunch that was written, centred along the propagation axis.',
     ['inputs', 'configurations'],
     'every bunch, species, plasma model and output index',
     'Tests read back one electron bunch and open one file with the viewer.',
     [OD, PB, RZ, 'wake_t/utilities/bunch_generation.py'], [('particle data', PB + ':get_openpmd_diagnostics_data'), ('field data', RZ + ':_get_openpmd_diagnostics_data'), ('writer', OD + ':_write_species')],
     None, ['HDF5 files', 'bunch read back from file'])

prop('P09', 'Tracking never creates, loses, reorders or reweights particles',
     'Tracking a bunch through any element or beamline leaves its number of particles, their order, weights, tags, species charge and mass, name and injection position unchanged, and every returned output carries the same values. Particles do not influence each other unless a self-consistent field links them: each particle of a bunch moves as it would alone, also if the bunch had other particles, more or fewer, in an earlier tracking.',
     ['programs', 'inputs'],
     'every element, pusher, species and bunch',
     'Tests look at averaged beam parameters of electron bunches.',
     [PB, TM, TR], [('push in place', PB + ':evolve'), ('new bunch of a transfer map', TM + ':_create_new_bunch')],
     ['particle arrays', 'bunch attributes'], ['bunches before and after tracking'])

prop('P10', 'Bunch copies and returned outputs are complete and independent',
     'A copy of a bunch, and every output returned by tracking, equals the original in all its coordinates, weights and properties at the moment it is taken, and later changes to the original (by the user or by tracking), to another output or to the copy never show up in each other. Bunches created without a name get a name no other unnamed bunch has.',
     ['histories', 'programs'],
     'every sequence of copying, tracking and in-place or replacing modification of bunches',
     'Tests never modify one bunch and look at another.',
     [PB, TR, TM], [('copy', PB + ':copy'), ('snapshots', TR + ':generate_diagnostics'), ('outputs of transfer maps', TM + ':_create_new_bunch')],
     ['particle arrays', 'bunch attributes'], ['bunch objects'])

prop('P11', 'A bunch with an injection position moves ballistically until it gets there',
     'A bunch with an injection position feels no field during any step that starts while its foremost particle (lab position) is still before that position, and feels all fields of the element in every later step, in any element and across consecutive elements. A bunch without injection position always feels all fields.',
     ['configurations', 'histories'],
     'every injection position relative to steps and elements, both pushers, several bunches with different injection positions',
     'No test uses the injection position.',
     [PB], [('injection switch', PB + ':evolve')],
     ['propagation distance'], ['gather calls received by fields', 'particle momenta'])

prop('P12', 'All phase-space representations of a bunch are mutually consistent',
     'Converting a bunch to any of its matrix representations or charge array and building or setting a bunch from it returns the same particles: each coordinate in its place, total charge and weights consistent with the species charge, and slopes and energy deviations consistent with the momenta. Moving a bunch to a given mean position shifts all particles rigidly.',
     ['inputs'],
     'every set of particles and species of either sign',
     'Tests do not exercise the matrix interfaces.',
     [PB, 'wake_t/utilities/bunch_manipulation.py'], [('matrix getters and setters', PB + ':set_bunch_matrix')],
     ['particle arrays'], ['matrices and bunch attributes'])

prop('P13', 'Fields of an element superpose linearly and never leak',
     'The force on a particle is the sum of the contributions of all fields of the element: independent of their order, with undefined components contributing zero, user-defined components evaluated with the positions, time and constants they were given, nothing left over from earlier evaluations, other bunches or other elements. This includes analytical wakefields, lenses and quadrupoles combined with external fields.',
     ['configurations', 'inputs', 'histories'],
     'every list of fields, in any order and multiplicity, and every sequence of evaluations',
     'Tests apply one field at a time.',
     ['wake_t/fields/gather.py', 'wake_t/fields/analytical_field.py', 'wake_t/physics_models/em_fields', 'wake_t/physics_models/plasma_wakefields'], [('sum over fields', 'wake_t/fields/gather.py:gather_fields'), ('components', 'wake_t/fields/analytical_field.py:_gather')],
     ['gathered field arrays'], ['momentum change of particles'])

prop('P14', 'Particles obey the Lorentz force for their species',
     'For uniform electric and magnetic fields one step of either pusher gives the momentum and position change of the relativistic Lorentz force for the charge and mass of the bunch species: a pure electric field changes the momentum by exactly q E t, a pure magnetic field never changes the energy, opposite charges bend in opposite directions, and without fields particles move in straight lines at their velocity; in combined fields, also varying in space and time, the motion converges to the exact one with second (Boris) or fourth (RK4) order in the step. The co-moving coordinate changes by the difference between the particle velocity and the speed of light.',
     ['inputs', 'configurations'],
     'every momentum, field direction and strength, species and time step',
     'Tests only use electrons (one uses protons) in focusing fields and compare averages.',
     ['wake_t/particles/push/boris_pusher.py', 'wake_t/particles/push/runge_kutta_4.py'], [('Boris push', 'wake_t/particles/push/boris_pusher.py'), ('RK4 push', 'wake_t/particles/push/runge_kutta_4.py')],
     ['particle arrays'], ['particle arrays before and after a step'])

prop('P15', 'Lenses and quadrupoles focus by gradient, charge sign and plane',
     'An active plasma lens of given strength deflects particles towards the axis equally in both planes if the strength is positive for electrons, and a field quadrupole focuses electrons in x and defocuses them in y; deflections are proportional to strength, offset and charge and reverse with the sign of either. A field quadrupole and a transfer-map quadrupole of the same gradient and reference energy move particles in the same way. The automatic time step resolves this motion for every particle of the bunch.',
     ['inputs', 'configurations'],
     'every strength, offset, species and energy',
     'Tests track one electron beam with positive strength.',
     ['wake_t/beamline_elements/active_plasma_lens.py', 'wake_t/beamline_elements/field_quadrupole.py', 'wake_t/physics_models/em_fields', TM], [('lens field', 'wake_t/physics_models/em_fields/linear_b_theta.py'), ('quadrupole field', 'wake_t/physics_models/em_fields/quadrupole.py')],
     None, ['momentum change of particles'])

prop('P16', 'Depositing particles on the grid conserves charge and locality',
     'Depositing particles on the radial-longitudinal grid adds their full weight to cells adjacent to their position, leaves everything else unchanged, puts nothing outside the physical grid, ignores particles outside the grid, and is additive over particles and independent of their order and azimuth. With the linear shape the longitudinal centroid of what is deposited is the particle position.',
     ['inputs', 'configurations'],
     'every particle position (cell centres, edges, axis, boundaries, outside), weight, grid size and aspect ratio, particle shape and correction setting',
     'Tests sample one smooth random distribution on one grid and compare sums.',
     ['wake_t/particles/deposition.py', 'wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py'], [('beam deposition', 'wake_t/particles/deposition.py'), ('plasma deposition', 'wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py')],
     ['deposition array'], ['deposition array'])

prop('P17', 'Gathering fields from the grid is bilinear, symmetric and bounded to the grid',
     'The field felt by a bunch particle is the bilinear interpolation of the four surrounding grid values, with radial components vanishing smoothly on axis and projected on the direction of the particle, the longitudinal component constant below the first cell, and exactly nothing outside the grid; finite grid values never give a non-finite force, even exactly on axis. Resampling a grid on another grid reproduces every field that is linear in both directions exactly.',
     ['inputs'],
     'every particle position (cells, edges, axis, outside) and grid values',
     'Tests compare one random distribution with stored values away from the edge cases.',
     ['wake_t/particles/interpolation.py', 'wake_t/fields/interpolation.py'], [('gather', 'wake_t/particles/interpolation.py:gather_main_fields_cyl_linear'), ('resample', 'wake_t/fields/interpolation.py:interpolate_rz_field')],
     None, ['gathered values'])

prop('P18', 'A laser pulse is initialised once and evolves continuously through stages',
     'The envelope of a laser pulse is initialised on entering its first plasma stage and from then on advanced by exactly one update period at every later field evaluation, through any number of consecutive stages, so that it has propagated the total length of the stages; it never restarts or jumps at a stage entrance, and stays unchanged where evolution is switched off. A later stage with a different laser grid is rejected.',
     ['histories', 'configurations'],
     'every sequence of stages sharing a pulse, with any periods, sub-steps, grids and evolution settings',
     'Tests use one stage per pulse, or look at the spot size after one sequence.',
     [LP, RZ], [('solver set-up', LP + ':set_envelope_solver_params'), ('one-time initialisation', LP + ':initialize_envelope'), ('advance', LP + ':evolve'), ('driver', RZ + ':_evolve_properties')],
     ['envelope', 'step counter', 'solver parameters'], ['envelope array after each update'])

prop('P19', 'The envelope solver solves its implicit equation exactly and linearly',
     'Every envelope step is the exact solution of its tridiagonal system, including the first and last radial row, so that propagation scales with the amplitude, is linear in the envelope if phase terms are off, is insensitive to a constant phase factor (for a pulse that fades before the front edge of the grid), independent of envelope and plasma behind (in the co-moving frame), and zero stays zero. After the first update, sub-dividing an update in n sub-steps is the same as n updates with an n times shorter period in the same plasma.',
     ['inputs', 'configurations'],
     'every envelope, plasma susceptibility, grid and step',
     'Tests check the evolution of the waist of smooth Gaussian pulses that vanish at the grid edge.',
     ['wake_t/physics_models/laser/tdma.py', 'wake_t/physics_models/laser/envelope_solver.py', 'wake_t/physics_models/laser/envelope_solver_non_centered.py', 'wake_t/physics_models/laser/utils.py'], [('tridiagonal solve', 'wake_t/physics_models/laser/tdma.py:TDMA'), ('centred step', 'wake_t/physics_models/laser/envelope_solver.py'), ('first step', 'wake_t/physics_models/laser/envelope_solver_non_centered.py')],
     ['envelope at two time levels'], ['envelope array'])

prop('P20', 'Initial laser envelopes have the requested shape and add up',
     'At focus the envelope of every pulse type has the requested peak, centre and phase at its position, falls to the documented fraction at the requested spot size and duration, and is displaced rigidly with its centre. Sums of pulses have the sum of their envelopes, in any order and grouping, keep wavelength and polarisation, and pulses that differ in either cannot be summed. The group velocity is that of the wavelength in the given plasma density.',
     ['inputs'],
     'every pulse type and parameter, and every sum of pulses',
     'Tests check the energy of one pulse of each type.',
     [LP], [('envelope functions', LP + ':_envelope_function'), ('sums', LP + ':SummedPulse')],
     None, ['envelope values'])

prop('P21', 'Transfer-map outputs lie where requested and do not change the result',
     'A transfer-map element with n outputs returns the bunch at each k/n of its length (with the correct propagation distance), optionally preceded by the initial bunch, and nothing if no outputs are requested; the bunch itself always ends at the end of the element in the state of the last output. To first order the final state is the same for any number of outputs and equal to tracking the element in consecutive pieces.',
     ['configurations', 'programs'],
     'every element type, length, number of outputs, and splitting in pieces',
     'Tests use drifts in a beamline and count outputs.',
     [TM, 'wake_t/particles/push/transfer_matrix.py', 'wake_t/physics_models/beam_optics/transfer_matrices.py'], [('steps and outputs', TM + ':_determine_steps'), ('final state', TM + ':_update_input_bunch')],
     ['step index'], ['returned outputs', 'final bunch'])

prop('P22', 'Bends keep the reference trajectory of the bunch consistent',
     'A particle on the reference trajectory and reference energy stays on it: after any sequence of bends and drifts its angle is the sum of the bending angles, its transverse position is that of the corresponding chain of arcs and straight lines, and a symmetric chicane brings it back on axis. The result does not depend on how many outputs are requested or into how many pieces the elements are divided.',
     ['programs', 'configurations'],
     'every sequence of bends of either sign and drifts, and every division in pieces',
     'No test bends a beam.',
     [TM], [('reference angle and offset', TM + ':_create_new_bunch'), ('entrance rotation', TM + ':_get_beam_matrix_for_tracking')],
     ['reference angle', 'reference offset'], ['particle coordinates'])

prop('P23', 'First-order transfer maps are symplectic and depend only on bunch and element',
     'To first order every transfer-map element acts linearly on offsets and slopes with a phase-space-area preserving map (drift, focusing and defocusing quadrupole, bend), consistent with its length, strength and reference energy, and leaves the energy unchanged. Tracking a bunch gives the same result whether or not the element, or any other, was used before; without an explicit reference energy the mean energy of the bunch being tracked is used.',
     ['inputs', 'histories'],
     'every element, strength of either sign, energy, and history of earlier trackings',
     'Tests track drifts only.',
     [TM, 'wake_t/physics_models/beam_optics/transfer_matrices.py', 'wake_t/utilities/bunch_manipulation.py'], [('first order matrix', 'wake_t/physics_models/beam_optics/transfer_matrices.py:first_order_matrix'), ('reference energy', TM + ':track')],
     ['reference energy'], ['particle coordinates'])

prop('P24', 'CSR keeps the lattice history and step layout of the current beamline only',
     'With coherent synchrotron radiation on, an element is tracked in equal steps not longer than the configured one that cover it exactly and include every requested output position; consecutive such elements form one continuous trajectory, and a transfer-map element without it, or a reset, starts a new one. The result therefore depends only on the bunch and on the current uninterrupted sequence of elements, never on beamlines tracked before. Radiating costs the bunch as a whole energy, in a long bend at the rate of one-dimensional theory, in proportion to its charge and whatever its sign.',
     ['histories', 'configurations'],
     'every sequence of elements with and without radiation, resets, settings, numbers of outputs and lengths',
     'No test uses radiation.',
     ['wake_t/physics_models/collective_effects/csr.py', TM], [('lattice state', 'wake_t/physics_models/collective_effects/csr.py:CSRCalculator'), ('step layout', TM + ':_determine_steps')],
     ['lattice elements', 'trajectory', 'step sizes'], ['returned outputs', 'final bunch'])

prop('P25', 'Saving and reading a bunch preserves it in every format',
     'A bunch saved in any supported format and read back has the same particles (weights, transverse coordinates, momenta, longitudinal coordinates up to centring), species (any species in openPMD files, electrons and positrons in ASTRA files, electrons in CSRtrack files) and, if requested, the mean of the stored longitudinal positions as propagation distance, except for the reference particle added by formats that need one. Files with several species need an explicit choice and unknown formats are rejected. Saving does not alter the bunch.',
     ['inputs', 'configurations'],
     'every bunch and species, every supported format and option',
     'Tests save one electron bunch.',
     ['wake_t/utilities/bunch_saving.py', 'wake_t/utilities/bunch_generation.py'], [('save', 'wake_t/utilities/bunch_saving.py'), ('read', 'wake_t/utilities/bunch_generation.py:get_from_file')],
     None, ['files and bunches read back'])

prop('P26', 'Bunch analysis reports the right quantity under the right name',
     'The analysis of a bunch, or of a list of bunches, reports for each name (position, mean energy, sizes, Twiss parameters, emittances, spreads, charge, pointing) the charge-weighted quantity of that plane and bunch, in the order of the list; exchanging the two transverse planes exchanges exactly the corresponding entries. Saving the results to a file and reading them back returns the same values under the same names.',
     ['inputs'],
     'every bunch and list of bunches',
     'Tests use a few of the entries in reference values.',
     ['wake_t/diagnostics/bunch_analysis.py'], [('analysis', 'wake_t/diagnostics/bunch_analysis.py:analyze_bunch_list'), ('files', 'wake_t/diagnostics/bunch_analysis.py:save_parameters_to_file')],
     None, ['dictionaries'])

prop('P27', 'Plasma elements see the requested density at the right position',
     'A plasma stage evaluates the density it was given at the position reached inside that stage; a downramp starts at the top density and reaches the lower density at the requested position (or the end of the ramp), an upramp is its mirror image ending at the top density, and ramp profiles decrease monotonically away from the top. Custom profiles are used as given, the automatic bunch step resolves the betatron motion at the highest density of the stage, and unknown ramp profiles, wakefield models or density types are rejected.',
     ['inputs', 'configurations'],
     'every profile, length, density pair, position and wakefield model',
     'Tests track one up- and one downramp with a focusing model.',
     ['wake_t/beamline_elements/plasma_ramp.py', 'wake_t/beamline_elements/plasma_stage.py', RZ], [('ramp profiles', 'wake_t/beamline_elements/plasma_ramp.py'), ('density lookup', RZ + ':_calculate_field')],
     None, ['density function calls', 'fields'])

prop('P28', 'Plasma wakefields depend causally on the deposited sources only',
     'In the self-consistent plasma models (the quasistatic and the cold-fluid model) the wakefield at a co-moving position is a function of the charge and laser intensity at and ahead of that position (up to the width of the particle shape and of the difference stencils) and of nothing else: splitting a bunch into several bunches, merging or reordering bunches and particles, rotating particles about the axis, changing momenta or species at the same charge, or adding particles that lie outside of the grid changes nothing. In units of the wave-breaking field and the skin depth it does not depend on the plasma density. Without drivers there is no wakefield (up to the discretisation noise of the plasma). Recomputing the wakefield for the same drivers gives the same field whatever was computed before with the same object, and the calculation does not modify the bunches.',
     ['inputs', 'histories'],
     'every set of bunches and laser pulse, grid, plasma channel, pusher and plasma model, and every history of calculations with one field object',
     'Tests compare single runs with stored values.',
     ['wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis', 'wake_t/physics_models/plasma_wakefields/qs_cold_fluid_1x3p.py'], [('quasistatic solver', 'wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/solver.py'), ('fluid model', 'wake_t/physics_models/plasma_wakefields/qs_cold_fluid_1x3p.py')],
     ['field arrays'], ['field arrays'])

prop('P30', 'The plasma response agrees with theory in its limits',
     'The wakefields of the quasistatic and cold-fluid models follow from one potential (d_r E_z = d_xi (E_r - c B_t) on the grid). Where nothing disturbs it the plasma has the density it was given (channel and plasma edge included) and the susceptibility seen by a laser is that density. Weak drivers superpose. On scales much shorter than the skin depth the azimuthal field of a bunch is that of its current (Ampere), weak bunches drive the plasma wave of two-dimensional linear theory (E_z, the screened B_t and the density of the plasma electrons) with either plasma pusher, behind a strong electron bunch only the ions are left (focusing field r/2 in plasma units, with the parabolic channel included, and E_z independent of r), the fluid model has the one-dimensional plasma wave behind a thin sheet of charge (and that wave has no magnetic field), weak pulses and bunches superpose in it and bunches drive waves only if asked to, both models agree for laser pulses much wider than the grid, as does the susceptibility the pulse is given, both pushers agree within the discretisation error, and the longitudinal derivative of the potential used for the plasma particles is the derivative of the potential.',
     ['inputs'],
     'every driver in the respective regime, pusher, particle shape, density and channel',
     'Tests compare single runs with stored values.',
     ['wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis', 'wake_t/physics_models/plasma_wakefields/qs_cold_fluid_1x3p.py'], [('potential', 'wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py'), ('azimuthal field', 'wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/b_theta.py'), ('pushers', 'wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/plasma_push')],
     None, ['field arrays'])

prop('P33', 'To second order, transfer maps are those of the magnetic fields of the element',
     'The second-order transfer map of an element (drift, dipole, quadrupole, sextupole or any combination of them) is, up to terms of third order in the deviations from the reference, the motion of a charged particle in the magnetic field of the element: chromatic focusing and dispersion, the kicks of the sextupole, the geometric terms of bends and the path length, for every reference energy, at the end of the element and at each of its outputs. Two halves of an element are the element to second order, the energy of each particle is kept, and special combinations of the strengths (a quadrupole that cancels the focusing of the bend, for example) are no exception.',
     ['inputs'],
     'every element length, angle, quadrupole and sextupole strength, reference energy, number of outputs and deviation of the particles',
     'Tests track one bunch through a few elements and compare with stored averages.',
     [TM, 'wake_t/physics_models/beam_optics/transfer_matrices.py'], [('second order matrix', 'wake_t/physics_models/beam_optics/transfer_matrices.py:second_order_matrix'), ('application of the map', 'wake_t/particles/push/transfer_matrix.py')],
     None, ['particle arrays'])

prop('P34', 'Tracking backwards undoes tracking forwards',
     'Tracking a bunch backwards through a transfer-map element undoes tracking it forwards through the same element (without coherent synchrotron radiation): offsets, slopes, longitudinal positions and energies return to their values (exactly to first order, up to terms of third order in the deviations with second-order maps), as do the propagation distance, the reference angle and the reference displacement, also over several elements undone in reverse order. The outputs on the way back lie at the positions k/n of the length counted from the end of the element, and openPMD outputs are stamped with those positions along the beamline.',
     ['inputs', 'histories'],
     'every sequence of elements, reference energy, number of outputs, order of the maps and bunch',
     'No test tracks backwards.',
     [TM], [('tracking', TM + ':TMElement.track'), ('reference trajectory', TM + ':TMElement._create_new_bunch')],
     ['reference trajectory'], ['bunch outputs'])

prop('P35', 'Requests that cannot be honoured are refused and leave the bunch as it was',
     'An option Wake-T does not know or cannot honour ends in an error and is never replaced by something else: an unknown bunch pusher, plasma pusher, particle shape (where particles are deposited), wakefield model or ramp profile; a density or channel that is neither a number nor a function; a lens with wakefields but without density; pulses of different wavelength or polarization to be summed; an envelope initialised before its grid is known; fewer than one laser sub-step; a list of time steps that does not fit the bunches; an output of bunches with equal names. The bunch is not changed by a refused tracking, and wakefields and laser pulses whose first evaluation was refused can be used afterwards as if nothing had happened. Every known option is accepted.',
     ['configurations', 'histories'],
     'every option with a fixed set of choices, any sequence of refused and accepted requests',
     'No test requests anything invalid.',
     ['wake_t/particles/particle_bunch.py', 'wake_t/beamline_elements', 'wake_t/physics_models/laser/laser_pulse.py', 'wake_t/particles/deposition.py'], [('pushers', 'wake_t/particles/particle_bunch.py:evolve'), ('models and densities', 'wake_t/beamline_elements/plasma_stage.py'), ('laser parameters', 'wake_t/physics_models/laser/laser_pulse.py:set_envelope_solver_params'), ('plasma pusher', 'wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/solver.py')],
     None, ['exceptions and bunch attributes'])

prop('P29', 'Generated bunches have the requested charge, species, mean and layout',
     'A generated bunch has exactly the requested number of particles, total charge (with the sign of the species), species and name, equal weights, all particles within three bunch lengths of the requested centre, and offsets and pointing angles shift all particles rigidly by the requested amounts. The sizes, correlations and energy spread scale as requested for the same random numbers, and bunches from size or matched to a plasma equal those with the corresponding Twiss parameters.',
     ['inputs'],
     'every set of bunch parameters and random seed',
     'Tests generate bunches with one set of parameters and compare averages.',
     ['wake_t/utilities/bunch_generation.py'], [('Twiss generator', 'wake_t/utilities/bunch_generation.py:get_gaussian_bunch_from_twiss')],
     None, ['particle arrays'])

prop('P31', 'Analytical blowout fields have their documented strength and phase',
     'The blowout wakefield models act on a bunch as documented, at every position of the stage: the simple model focuses and accelerates with the gradient of the bare ions at the given density, its accelerating field vanishing half a plasma wavelength behind the laser pulse (shifted by the field offset) and falling back with the group velocity of the pulse; the custom model has the given focusing gradient, and at the entrance the given longitudinal field and slope at the given position, falling back in the same way; the focusing model only focuses. The phase restarts at every entrance and depends on neither the bunch, its propagation distance, nor the time steps.',
     ['inputs', 'histories'],
     'every density, wavelength, offset, set of field values, bunch, number of steps and sequence of stages',
     'Tests track single bunches in single stages and compare averages with stored values.',
     ['wake_t/physics_models/plasma_wakefields/simple_blowout.py', 'wake_t/physics_models/plasma_wakefields/custom_blowout.py', 'wake_t/physics_models/plasma_wakefields/focusing_blowout.py'], [('analytical field', 'wake_t/fields/analytical_field.py'), ('model selection', 'wake_t/beamline_elements/plasma_stage.py')],
     ['position in the stage'], ['bunch outputs'])

prop('P32', 'Results do not depend on threads, repetition or compilation',
     'A simulation gives the same bunches and fields with any number of threads (WAKET_NUM_THREADS), when repeated in the same process, and compiled or interpreted, up to the rounding of floating-point sums; no update is lost when particles are processed in parallel. Tracking leaves the number of threads of the surrounding program as it was.',
     ['schedules', 'inputs'],
     'every number of threads and schedule, every element and bunch',
     'Tests run with one thread, and races show only for many particles and some schedules.',
     ['wake_t/utilities/numba.py', 'wake_t/particles/deposition.py', 'wake_t/particles/interpolation.py', 'wake_t/particles/push'], [('threads while tracking', TR), ('parallel loops', 'wake_t/particles/push/boris_pusher.py'), ('serial deposition', 'wake_t/particles/deposition.py')],
     None, ['final bunches', 'grid fields', 'numba thread setting'])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
