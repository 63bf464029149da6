#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are kept)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe_at=(), state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=list(observe_at), hook_needed=None)))


prop('P01', 'Macroparticles stay inside the vacuum chamber',
     'After every completed time step, every macroparticle of every cloud is at a finite position strictly inside the vacuum chamber cross-section, '
     'with finite velocity and a finite, non-negative charge. This holds for every chamber shape, tracker, emission model, primary source and cleaning or regeneration event.',
     ['inputs', 'configurations', 'histories'],
     'All chamber shapes (ellipse, rectangle, convex and non-convex polygon), trackers, emission models, sources, beams and every step of a run.',
     'The tests run a few fixed configurations and assert nothing about positions of individual macroparticles.',
     ['impact_management_class.py', 'buildup_simulation.py', 'geom_impact_ellip.py', 'geom_impact_poly_fast_impact.py', 'geom_impact_poly_cython.pyx', 'geom_impact_rect_fast_impact.py'],
     [('backtracking of particles that crossed the wall', 'impact_management_class.py backtrack_and_second_emiss')],
     ['state of each cloud after each simulation time step'])

prop('P02', 'Wall hits are resolved to the true crossing point and wall normal',
     'For a particle that moved from inside the chamber to outside, the reported impact point lies on its straight path in the transverse plane, strictly inside the chamber and within the small numerical safety distance of the place where the path first meets the wall. '
     'The reported surface normal is the unit inward normal of the wall at that place, and for polygonal and rectangular chambers the reported wall segment is the one that was hit.',
     ['inputs'], 'Every start point inside and end point outside, including grazing, corner and multi-wall crossings, for every chamber shape, convex or not.',
     'Existing tests look at end-to-end electron numbers only; the geometric resolution of an individual crossing is never checked.',
     ['geom_impact_ellip.py', 'geom_impact_poly_fast_impact.py', 'geom_impact_poly_cython.pyx', 'geom_impact_poly.py', 'geom_impact_rect_fast_impact.py'],
     [('impact_point_and_normal of each chamber class', 'geom_impact_*.py')], ['return values of the wall-crossing resolution'])

prop('P03', 'Inside/outside classification matches the chamber shape',
     'A point is classified as outside the chamber exactly when it does not lie strictly inside the configured ellipse, rectangle or polygon, up to rounding next to the boundary, independently of the other points classified in the same call and of shortcuts used for speed. '
     'The bounding half-apertures, the area and the per-segment lengths reported for the chamber agree with that shape.',
     ['inputs', 'configurations'], 'Every point and every valid chamber polygon: convex, non-convex, off-centre, any number of vertices; invalid ones (clockwise, zero-length segments, non-convex declared convex) are rejected.',
     'A handful of fixed chambers is exercised, never compared with an independent geometric computation.',
     ['geom_impact_ellip.py', 'geom_impact_poly.py', 'geom_impact_poly_fast_impact.py', 'geom_impact_poly_cython.pyx', 'geom_impact_rect_fast_impact.py'],
     [('is_outside, fast inscribed-shape shortcuts, area', 'geom_impact_*.py')], ['is_outside of each chamber class'])

prop('P04', 'Charge is accounted for exactly in wall impacts',
     'In every time step the charge removed from the cloud by wall impacts and the charge emitted back are accounted for exactly: total charge after the impact stage equals charge before, minus impacting charge, plus emitted charge, and the reported impacting and emitted charge, impact energy and scrubbing dose equal what an observer computes from the particles that hit. '
     'Particles that did not hit the wall are left untouched, and the emitted charge of each impact equals the impacting charge times the yield of the emission model (for event-based models, times the number of emitted particles), independently of how it is split into macroparticles. '
     'Emitted charge is split over several macroparticles only when it exceeds the splitting threshold, and each of the parts then carries an equal share below or near the threshold.',
     ['inputs', 'histories', 'configurations'], 'Every cloud state and set of simultaneous impacts, every emission model and splitting threshold.',
     'Tests compare averaged curves by eye; conservation at each step is not asserted.',
     ['impact_management_class.py', 'sec_emission_model_ECLOUD.py', 'sec_emission_model_furman_pivi.py', 'sec_emission_model_perfect_absorber.py', 'MP_system.py'],
     [('impact bookkeeping and macroparticle splitting', 'impact_management_class.py, sec_emission_model_*.py')], ['cloud state before and after each impact stage and the per-step impact counters'])

prop('P05', 'Secondary emission yield follows the configured model',
     'For each emission model the yield and the share of elastically reflected electrons used for an impact are the documented function of impact energy, angle of incidence, model parameters and (for non-uniform surfaces) the wall segment hit, with options that switch off angular dependences honoured. '
     'Yields are finite and non-negative, the elastic share lies in [0,1], and the observed frequencies of elastic, rediffused and true-secondary events converge to the model probabilities.',
     ['inputs', 'configurations'], 'All energies, incidence angles, model parameters and segment maps for all supported emission models.',
     'Only two parameter sets are exercised by reliable tests and no expected yield values are asserted.',
     ['sec_emission_model_ECLOUD.py', 'sec_emission_model_ECLOUD_nunif.py', 'sec_emission_model_accurate_low_ene.py', 'sec_emission_model_cos_low_ener.py', 'sec_emission_model_flat_low_ener.py', 'sec_emission_model_from_file.py', 'sec_emission_model_furman_pivi.py'],
     [('yield functions and event selection of each model', 'sec_emission_model_*.py')], ['yield and event type of single impacts'])

prop('P06', 'Emitted electrons leave the wall inward with the modelled energy and angle',
     'Every electron emitted by the wall (elastic, rediffused or true secondary) starts at the impact point with a velocity component directed into the chamber; elastically reflected electrons of the non-event-based models keep their energy and are reflected specularly. '
     'True secondaries have non-negative finite energies drawn from the configured spectrum and within its configured limits (upper cut, no energy gain where requested), and their directions follow the configured angular distribution about the inward normal.',
     ['inputs', 'configurations'], 'All impact velocities, wall orientations, energy-spectrum parameters and angular distributions.',
     'Direction and energy of emitted particles are never asserted; statistical comparisons in the repository are plots.',
     ['electron_emission.py', 'sec_emission_model_ECLOUD.py', 'sec_emission_model_furman_pivi.py', 'impact_management_class.py'],
     [('velocity and energy generation', 'electron_emission.py')], ['velocities of replaced and new macroparticles after an impact'])

prop('P07', 'Cleaning and soft regeneration preserve the cloud',
     'Cleaning removes exactly the macroparticles below the cleaning threshold and leaves all others unchanged with all their attributes belonging together. '
     'Soft (and asynchronous) regeneration acts only above its trigger, keeps a random subset of the macroparticles with position, velocity and time of last impact unchanged, rescales their charges by one common factor so that the total charge of the cloud is unchanged, and updates the reference macroparticle size used for splitting and cleaning accordingly. '
     'Charge never disappears or appears by these operations except for the cleaned macroparticles.',
     ['histories', 'inputs', 'configurations'], 'Every sequence of growth, cleaning and regenerations, including repeated ones, empty and full clouds and re-initialised clouds.',
     'Regenerations trigger only in a few long runs; no assertion on conservation exists.',
     ['MP_system.py', 'buildup_simulation.py'], [('clean_small_MPs, perform_soft_regeneration, check_for_async_regeneration', 'MP_system.py')], ['cloud state before and after each operation'])

prop('P08', 'Full regeneration reproduces the charge distribution',
     'A full regeneration is performed exactly when the macroparticle number leaves its configured window, and replaces the cloud by equally charged macroparticles carrying the new reference charge, all inside the chamber, whose total charge equals the total before up to the discarded tail and the random rounding of one macroparticle per occupied cell. '
     'The new phase-space distribution matches the previous one within the resolution of the regeneration grid (cell by cell charge, mean position and velocity, spread).',
     ['inputs', 'histories', 'configurations'], 'All cloud distributions, chamber shapes, grid sizes and reference sizes.',
     'No test triggers a full regeneration and checks the outcome.',
     ['MP_system.py'], [('check_for_regeneration', 'MP_system.py')], ['cloud state before and after regeneration'])

prop('P09', 'Macroparticle storage keeps every particle and attribute aligned',
     'Adding macroparticles (uniform initial distribution, initial density, sources, secondaries, file) appends exactly the requested particles with all requested attributes, including time of last impact, and leaves existing particles untouched; initial distributions lie in the requested window inside the chamber with the requested total charge and speed. '
     'When the configured maximum number of macroparticles would be exceeded, the operation fails loudly instead of silently losing or corrupting particles.',
     ['histories', 'inputs'], 'All sequences of additions up to and beyond capacity.',
     'Capacity overflow and per-attribute bookkeeping are not exercised by tests.',
     ['MP_system.py', 'gas_ionization_class.py', 'gen_photoemission_class.py', 'impact_management_class.py'], [('add_new_MPs, add_uniform_MP_distrib, add_uniform_ele_density, add_from_file', 'MP_system.py')], ['macroparticle arrays before and after each insertion'])

prop('P10', 'Trackers integrate the Lorentz force correctly',
     'Each particle tracker advances position and velocity according to the Lorentz force of the configured magnetic field and the supplied electric field for the charge and mass of the cloud: in a pure magnetic field kinetic energy is conserved to rounding, for uniform fields the strong-field dipole tracker is exact, and the general trackers converge to the exact trajectory at their order as the step is refined. '
     'Different trackers given the same field agree within their discretisation error, and running n sub-steps equals running n single steps of the shorter length.',
     ['inputs', 'configurations'], 'All field configurations (uniform, multipole up to high order with skew components, field maps, field-free), electric fields, velocities, charges and masses.',
     'Most tracker tests are not reliable in this environment and only compare averages.',
     ['dynamics_dipole.py', 'dynamics_strong_B_generalized.py', 'dynamics_Boris_f2py.py', 'dynamics_Boris_multipole.py', 'boris_step.f', 'boris_c_function.c', 'boris_cython.pyx', 'sincc_cosincc_cubsincc.py'],
     [('step and stepcustomDt of the pushers', 'dynamics_*.py')], ['particle state before and after a tracking step'])

prop('P11', 'Space-charge density and field represent the cloud',
     'The charge density deposited on the grid integrates to the total charge of the cloud, is linear and additive in the macroparticles and clouds, and has the correct centre of charge; the field obtained from it is linear in the charge, satisfies Gauss law and the grounded-wall condition, and matches analytic solutions to discretisation accuracy. '
     'The field used between recomputations is the one of the last recomputation, recomputations happen at the configured interval after the switch-on time, and the reported electrostatic energy equals the energy of that field.',
     ['inputs', 'configurations', 'histories'], 'All particle distributions, charges, grids, chambers, solvers and recomputation intervals.',
     'Tests never compare density or field with an independent computation.',
     ['space_charge_class.py', 'compute_rho.f', 'interp_field_for.f', 'buildup_simulation.py'], [('recompute_spchg_efield, get_sc_eletric_field, get_potential_electric_energy', 'space_charge_class.py')], ['density, potential and field at particles'])

prop('P12', 'Gas ionisation generates the right charge at the right place',
     'Primary macroparticles generated by residual-gas ionisation in a time step carry, on average and never off by more than one macroparticle, the charge given by pressure, temperature, cross section, line density and step length, and appear inside the chamber. '
     'They are distributed as the beam around its position plus the configured uniform fraction over the chamber, with the configured initial energy and isotropic directions, and existing particles are untouched.',
     ['inputs', 'configurations'], 'All beam positions, sizes, pressures, uniform fractions, chambers and steps, including several beams.',
     'Only smooth averages are compared in tests.',
     ['gas_ionization_class.py', 'buildup_simulation.py'], [('generate', 'gas_ionization_class.py')], ['cloud before and after primary generation'])

prop('P13', 'Photoemission generates the right charge at the right place',
     'Primary macroparticles generated by photoemission in a time step carry, on average and never off by more than one macroparticle per emission group, the charge given by photoelectron yield, line density and step length, start inside the chamber next to the wall location selected by the configured angular or per-segment distribution, and move inward with energies from the configured distribution. '
     'Existing particles are untouched, and with continuous emission disabled (enabled) the rate follows the instantaneous (average) beam intensity.',
     ['inputs', 'configurations'], 'All photoemission modes, reflectivities, distributions, chambers and intensities.',
     'The photoemission tests are not in the reliable set and check averages only.',
     ['gen_photoemission_class.py', 'electron_emission.py', 'geom_impact_poly_fast_impact.py'], [('generate of each photoemission class', 'gen_photoemission_class.py')], ['cloud before and after primary generation'])

prop('P14', 'Beam line density and timing follow the configured beam',
     'The line density seen by the cloud at each step is the configured bunch train (bunch intensity, length, spacing, offset and filling pattern) or the supplied profile, so that the charge of each bunch passage and of the whole train is the configured one. '
     'Time advances strictly by the reported steps, bunch passages are flagged once per bunch spacing in order, the simulation ends at the configured end, and secondary beams follow their own pattern on the same time grid.',
     ['inputs', 'configurations', 'histories'], 'All filling patterns, intensities, bunch lengths, offsets, spacings, time steps, uniform or not, and secondary beams.',
     'One or two fixed filling patterns are exercised.',
     ['beam_and_timing.py', 'parse_beam_file.py', 'init.py'], [('beam_and_timing', 'beam_and_timing.py')], ['time, step, line density and passage flags at each step'])

prop('P15', 'Beam electric field is that of the configured beam in the chamber',
     'The electric field of the beam at a particle is the line charge density times the static field of a Gaussian beam of the configured transverse size and position, in the conducting chamber where image charges are requested, to the accuracy of the field grid, with the sign of the beam charge. '
     'All ways of providing the field (analytic, with image charges, numerical, multigrid, from file) agree with each other, save and reload gives identical fields, and fields of several beams superpose.',
     ['inputs', 'configurations'], 'All beam sizes, positions, chambers, particle positions and field options.',
     'No expected field values in tests.',
     ['beam_and_timing.py', 'BassErsk.py', 'errfff.f', 'interp_field_for.f', 'buildup_simulation.py'], [('get_beam_eletric_field and field map generation', 'beam_and_timing.py')], ['beam field at particle positions'])

prop('P16', 'Step-by-step output equals the simulated quantities',
     'Every step-by-step quantity in the output file (time, number of electrons, impacting and emitted charge, impact energy, central density, probe densities, beam profile, electrostatic and kinetic energy, custom observables) equals the value an independent observer computes from the simulation at those steps. '
     'With output decimation, values that count events are sums over all steps of the group and instantaneous values are those of the recorded step, so that totals are independent of the decimation; all arrays of a group have the same number of entries. Safety copies of the output file are made at the passages following the configured interval, whenever there is an output file, and are identical to it.',
     ['configurations', 'histories'], 'All output settings, decimation factors, save intervals, numbers of clouds and run lengths.',
     'Reference output comparisons are plots without assertions.',
     ['pyecloud_saver.py', 'impact_management_class.py'], [('step-by-step recording', 'pyecloud_saver.py')], ['output file versus recorded cloud state at each step'])

prop('P17', 'Histograms and pass-by-pass output count every impact once',
     'Impact energy, angle, position, segment and lifetime histograms and the per-passage electron profiles in the output file equal those an independent observer accumulates: every impact is counted once, in the bins of its value (shared linearly between the two neighbouring bins), with its charge (or energy), and entries beyond the last bin go to the last bin. '
     'Histograms are reset once per recording period, so that the sum over periods equals the total, and per-passage profiles show the cloud at the passage, including when the cloud is empty.',
     ['configurations', 'histories', 'inputs'], 'All histogram settings, chambers, numbers of passages and impact values including extreme ones.',
     'Histogram content is never asserted by tests.',
     ['pyecloud_saver.py', 'impact_management_class.py', 'compute_hist.f', 'update_seg_impact.f'], [('histogram accumulation and pass-by-pass recording', 'pyecloud_saver.py, impact_management_class.py')], ['output file versus recorded impacts'])

prop('P18', 'Restart from a saved state continues the same simulation',
     'A simulation restarted from a saved simulation state or checkpoint, given the same random numbers, continues exactly as the uninterrupted one: identical particles, fields, times, accumulated surface and gas state at every later step. '
     'This holds for every saving time, any number of consecutive restarts, and all supported configurations.',
     ['histories', 'configurations', 'crash_points'], 'Every save time, repeated restarts, one or several clouds, all trackers, solvers and emission models with memory.',
     'One checkpoint configuration is run in tests and nothing is compared afterwards.',
     ['buildup_simulation.py', 'pyecloud_saver.py', '001_reload_state_and_run.py'], [('state saving and load_state/load_checkpoint', 'pyecloud_saver.py, buildup_simulation.py')], ['particle state of restarted versus uninterrupted run'])

prop('P19', 'Output file of a resumed run equals that of an uninterrupted run',
     'When a run with checkpoints is interrupted at any time and resumed from its last checkpoint, the final output file contains the same data as an uninterrupted run with the same random numbers: no step, passage, histogram or observable is lost, duplicated, shifted or zeroed.',
     ['crash_points', 'histories', 'configurations'], 'Every interruption time relative to checkpoints and output writes, all output options, repeated interruptions.',
     'The checkpoint test only verifies that the resumed run terminates.',
     ['pyecloud_saver.py', 'buildup_simulation.py'], [('load_from_output, checkpoint saving', 'pyecloud_saver.py')], ['output files'])

prop('P20', 'A crash never leaves the run without a usable checkpoint',
     'Once the first checkpoint of a run has been written, a crash at any point leaves at least one complete earlier or newer checkpoint from which the simulation can be continued, and a resumed run continues from the newest complete one. '
     'An ambiguous or damaged checkpoint folder is refused or resolved to a complete checkpoint, never loaded as a wrong state.',
     ['crash_points', 'fault_sequences'], 'Every file-system operation of the checkpoint sequence as the crash point, including partial writes and failing operations.',
     'Tests do not inject crashes.',
     ['pyecloud_saver.py', 'buildup_simulation.py'], [('checkpoint rotation', 'pyecloud_saver.py _check_for_and_save_checkpoint')], ['content of the checkpoint folder after each injected crash'])

prop('P21', 'Diagnostics do not influence the simulated physics',
     'Enabling, disabling or changing any output, histogram, movie, probe, progress, checkpoint or state-saving option leaves the simulated particles at every step exactly unchanged for the same random numbers. (The histogram pitch Dx_hist is at the same time the grid pitch of particle regeneration and counts as an output option only where nothing is regenerated.) '
     'Reading results or extracting emission curves does not alter the state of the simulation.',
     ['configurations'], 'All combinations of diagnostic options.',
     'Never compared by tests.',
     ['pyecloud_saver.py', 'impact_management_class.py', 'init.py'], [('observation only in the saver', 'pyecloud_saver.py')], ['particle state with and without diagnostics'])

prop('P22', 'Configuration is applied as written or rejected',
     'Unknown parameters, missing mandatory parameters, conflicting definitions and invalid option combinations in the input files or keyword overrides are rejected with an error; every accepted parameter takes effect with the value given, defaults apply only to parameters not given, and keyword overrides take precedence over files. '
     'Parameters given for an additional cloud apply to that cloud only, and those not given are taken from the main configuration.',
     ['configurations', 'inputs'], 'All sets of parameters in the main, machine, emission, beam and additional-cloud input files.',
     'Tests use valid inputs only.',
     ['input_parameters_format_specification.py', 'default_input_parameters.py', 'init.py', 'parse_beam_file.py', 'parse_cloud_file.py'], [('validation and merging of input modules', 'input_parameters_format_specification.py')], ['constructed simulation objects versus input files'])

prop('P23', 'Beam kicks from the electron cloud are physically correct',
     'When a beam is tracked through an electron cloud, each beam particle receives in each plane the transverse kick given by the electric field of the cloud at its position and slice passage time, scaled with its charge, momentum and the interaction length, and nothing else of the particle changes. '
     'The cloud in turn sees each slice with the slice charge, size and position, slices act in order from head to tail, and beam particles outside the sliced region receive no kick.',
     ['inputs', 'configurations'], 'All beam distributions, slicings, cloud states and options of the coupling.',
     'The coupling tests run a few fixed beams and assert nothing.',
     ['PyEC4PyHT.py'], [('track, _track_single_slice', 'PyEC4PyHT.py')], ['beam coordinates before and after the kick, fields seen by each slice'])

prop('P24', 'Each passage of the coupling starts from a fresh, independent cloud',
     'The cloud element used in beam tracking starts each passage from the same initial cloud unless memory is requested, saved multi-passage data describe each passage, and clones of the element (with shared field solver) behave exactly as independently built elements, in whatever order they are used. '
     'Tracking through one element never changes the initial cloud or state of another.',
     ['histories', 'configurations'], 'All sequences of passages and interleavings of clones.',
     'Fixed sequences only, no assertions.',
     ['PyEC4PyHT.py', 'MP_system.py', 'space_charge_class.py'], [('reinitialize, generate_twin_ecloud_with_shared_space_charge', 'PyEC4PyHT.py')], ['cloud and beam state of sequences of passages'])

prop('P25', 'Replayed field maps reproduce the recorded cloud kicks',
     'A frozen field map made of the fields recorded during a passage gives each beam particle the kick of the recorded field at its position in its slice (with the configured offsets and centroid reference), slice by slice in the recorded order, and leaves every other coordinate unchanged. '
     'Applying it to the beam that generated it reproduces the original kicks (of particles within the recorded grid, which with nested grids is the innermost one).',
     ['inputs', 'configurations'], 'All beams, slicings, offsets and both slice modes.',
     'One fixed comparison without assertion.',
     ['Transverse_Efield_map_for_frozen_cloud.py', 'PyEC4PyHT.py'], [('track', 'Transverse_Efield_map_for_frozen_cloud.py')], ['beam coordinates before and after'])

prop('P26', 'Cross-ionisation follows the rate equation and its bookkeeping',
     'In every step each projectile cloud ionises each target gas at the rate given by gas density, energy-dependent cross section, projectile charge and path length, generating for each product cloud the same charge at the projectile positions with the thermal energy distribution configured. '
     'Gas densities evolve consistently with what was generated, and energies outside the tabulated cross section follow the documented extrapolation.',
     ['inputs', 'configurations', 'histories'], 'All projectile states, densities, cross-section tables and product definitions.',
     'The single test of this part is not in the reliable set.',
     ['cross_ionization.py', 'buildup_simulation.py'], [('generate', 'cross_ionization.py')], ['cloud states before and after'])

prop('P27', 'Compiled kernels never touch memory outside their arrays',
     'The compiled kernels (density deposition, field interpolation, histograms, segment counters, Boris trackers, chamber geometry, error function) perform no out-of-bounds access, no use of uninitialised or freed memory and no undefined arithmetic for any input the program can pass, including empty arrays, values on and beyond grid edges, and zero and extreme velocities. '
     'Their results are finite for finite in-range inputs and depend only on the inputs.',
     ['inputs', 'configurations', 'programs'], 'All array lengths, values and parameters reachable from the Python layer.',
     'Out-of-bounds access in optimised builds is silent.',
     ['compute_rho.f', 'interp_field_for.f', 'compute_hist.f', 'update_seg_impact.f', 'errfff.f', 'boris_step.f', 'vectsum.f', 'boris_c_function.c', 'boris_cython.pyx', 'geom_impact_poly_cython.pyx'],
     [('bounds guards in kernels', 'compute_rho.f, interp_field_for.f, update_seg_impact.f, compute_hist.f')], ['sanitizer reports'])

prop('P28', 'Surface charging tracks the charge actually exchanged',
     'For insulating surfaces the charge stored on each wall segment changes in each step exactly by the impacting minus emitted charge on that segment and by the configured exponential decay, segment by segment, and never on non-charging segments. '
     'The yield used for each impact interpolates between the uncharged and charged models as a function of that stored charge, and reported per-segment quantities equal the stored ones.',
     ['histories', 'inputs', 'configurations'], 'All impact histories, segment maps and decay times.',
     'Not covered by reliable tests.',
     ['sec_emission_model_ECLOUD_nunif.py', 'impact_management_class.py'], [('charging model evolution', 'sec_emission_model_ECLOUD_nunif.py')], ['per-segment charge after each step'])

prop('P29', 'Several clouds coexist as independent populations in one common field',
     'In a simulation with several clouds each cloud is tracked with its own charge, mass, sources, emission model and output, and all clouds see exactly the sum of the fields of all clouds and beams. '
     'The density attributed to each cloud is its own, the sum equals the total density, and a cloud that carries no charge influences no other cloud.',
     ['configurations', 'histories'], 'Any number and order of clouds with arbitrary species, charges and sources.',
     'Multi-cloud tests are not in the reliable set.',
     ['buildup_simulation.py', 'cloud_manager.py', 'parse_cloud_file.py', 'space_charge_class.py', 'init.py'], [('loop over clouds and per-cloud density', 'buildup_simulation.py')], ['per-cloud state and density at each step'])

prop('P30', 'Same inputs and random seed give the same simulation',
     'Two simulations constructed from the same input files with the same random seed produce bit-identical particles and outputs, independently of simulations run before in the same process, of the input directory path, and of whether the run is performed in one go or as consecutive partial runs.',
     ['histories', 'configurations'], 'All configurations and orders of simulations in one process.',
     'Tests run each configuration once per process.',
     ['buildup_simulation.py', 'init.py', 'input_parameters_format_specification.py'], [('no hidden global state', 'whole package')], ['particle state digests of repeated runs'])

prop('P31', 'Saved macroparticle state restores the same cloud',
     'A macroparticle state written by the simulation at a requested time holds exactly the particles present at that step, one file per requested time, and loading it as initial distribution adds exactly these particles with the same positions, velocities and charges, counted as not yet having hit the wall. States kept in memory are restored including the times of last impact.',
     ['histories', 'inputs'], 'All save times, cloud contents (empty, one particle, many) and numbers of clouds.',
     'Files are written by one test but never read back.',
     ['pyecloud_saver.py', 'MP_system.py', 'init.py'], [('MP state file saving and add_from_file', 'pyecloud_saver.py, MP_system.py')], ['file content versus cloud state'])

prop('P32', 'Time stepping applies each stage once with the right step length',
     'In every simulation step each cloud is moved for exactly the duration of that step (uniform or non-uniform, with or without sub-steps and re-evaluation of the fields), and impacts, sources, cross-ionisation, space-charge update, output and cleaning are each applied once, in that order, with the same time and step length. '
     'Sub-stepping with re-evaluated fields equals the same motion with fields evaluated at each sub-step position.',
     ['configurations', 'histories'], 'All step modes, trackers, numbers of clouds and beams.',
     'Never asserted.',
     ['buildup_simulation.py', 'dynamics_Boris_f2py.py', 'dynamics_Boris_multipole.py', 'beam_and_timing.py'], [('sim_time_step', 'buildup_simulation.py')], ['ordered log of stages with times'])

prop('P33', 'Electromagnetic space-charge fields satisfy their defining relations',
     'With electromagnetic tracking the electric and magnetic fields at the particles derive from potentials generated by the charge and current of all clouds: currents weight each particle with charge and velocity, magnetic field is the curl of the vector potential (which travels with the velocity of the beam), the electric field includes its time derivative over the recomputation interval, and all fields are linear in the charge. '
     'For particles at rest they reduce to the electrostatic field with no magnetic field.',
     ['inputs', 'configurations'], 'All particle distributions, velocities, beam energies and intervals.',
     'One unreliable test without assertions.',
     ['space_charge_class_electromagnetic.py', 'buildup_simulation.py'], [('recompute_spchg_emfield, get_sc_em_field', 'space_charge_class_electromagnetic.py')], ['fields at particles'])

prop('P34', 'Density and field movies show the simulated fields',
     'When movie output is enabled, the saved density and potential/field frames of each passage are those of the simulation at the recorded times, one frame per recording step, in the folder of their cloud, each frame saved exactly once and none lost at passage boundaries.',
     ['configurations', 'histories'], 'All numbers of clouds, output folders, run lengths and passages.',
     'Only one configuration is run and its frames are not checked.',
     ['pyecloud_saver.py'], [('rho and field video saving', 'pyecloud_saver.py')], ['movie files versus recorded densities'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P))
