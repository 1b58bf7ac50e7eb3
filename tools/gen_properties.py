"""Writes /verif/properties.jsonl (kept as a script so the file stays valid)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(('name','meaning','where'), s)) for s in state],
            mechanism=[dict(zip(('name','where'), m)) for m in mech],
            observe_at=observe, hook_needed=hook)))

TR='wake_t/tracking/tracker.py'; FE='wake_t/beamline_elements/field_element.py'
TM='wake_t/beamline_elements/tm_elements.py'; BL='wake_t/beamline_elements/beamline.py'
PB='wake_t/particles/particle_bunch.py'; NF='wake_t/fields/numerical_field.py'
RZ='wake_t/fields/rz_wakefield.py'; OP='wake_t/diagnostics/openpmd_diag.py'
LP='wake_t/physics_models/laser/laser_pulse.py'; CSR='wake_t/physics_models/collective_effects/csr.py'
BP='wake_t/particles/push/boris_pusher.py'; RK='wake_t/particles/push/runge_kutta_4.py'
PS='wake_t/beamline_elements/plasma_stage.py'; IN='wake_t/particles/interpolation.py'

prop('C01', 'Every bunch is advanced through exactly the full element length',
 'Tracking through any element terminates, and every tracked bunch ends having moved by exactly the element length: its propagation distance grows by that length and a particle in zero field lands where free flight over length/c puts it. In field-based elements the pushes of a bunch are contiguous in time from 0 to length/c and none is longer than its requested fixed step, or than the adaptive step of the bunch as it is when the push begins, which is the documented tenth of the inverse of the fastest betatron frequency.',
 ['configurations','schedules','inputs'],
 'All combinations of element type and length, per-bunch fixed or adaptive steps (including steps longer than the element and changing adaptive steps), numerical-field periods, numbers of outputs, output-push option, pushers and numbers of bunches, including lengths whose event times coincide or sit on rounding edges.',
 'Tests track a handful of stages with one or two bunches and fixed, commensurate steps; whether the last push is clipped right depends on how the periods of bunches, fields and outputs interleave.',
 [TR,FE,TM,PB,CSR],
 [('discrete-event loop over next event times','Tracker._run_tracking_loop'),('clipping of the last step','Tracker.evolve_bunch'),('step partition of transfer-map elements','TMElement._determine_steps')],
 ['ParticleBunch.prop_distance','pushes of ParticleBunch.evolve','final phase space'],
 [('t_objects/dt_objects','current time and step of every tracked object',TR)])

prop('C02', 'Numerical fields are updated once per period on the right local clock',
 'During the tracking of an element every numerical field is recomputed at local time 0 and then exactly once at each integer multiple of its update period that lies within the element, at local clock values 0, dt, 2dt, ...; the period is the requested one, or, when even updates are forced (always with a laser), the largest not above it that divides the element duration, so that the last update falls exactly on the element end. Plasma density profiles are therefore sampled at the corresponding positions of the current element, starting from its entrance, in every tracking.',
 ['configurations','schedules','histories'],
 'All lengths, update periods (commensurate or not, longer than the element), forced even updates, several fields with different periods, any bunches/outputs interleaved with them, and any number of earlier trackings of the same field object.',
 'Tests only compare final beam parameters of a few long stages, which hardly depend on one missing, doubled or displaced update.',
 [NF,TR,RZ],
 [('update clock','NumericalField.update'),('forced even updates','NumericalField.adjust_dt'),('event loop','Tracker._run_tracking_loop')],
 ['calls of NumericalField._calculate_field with the field clock t','arguments of the density function'])

prop('C03', 'Bunches and fields interact in the right order of simulated time',
 'Tracking is equivalent to a sequential discrete-event execution: events happen in order of simulated time, coincident events in the order bunch pushes (in list order), field updates (in list order), output; every push uses the field state of the latest earlier update, evaluated at the simulated times prescribed by the pusher, and every field update sees each bunch exactly as left by its latest push. The resulting phase space of every bunch equals that of a small sequential reference implementation of this rule with the documented Boris or 4th-order Runge-Kutta step, in which elements with external fields (quadrupole, active plasma lens, blowout models, plasma ramps) have the fields of their documented formula with the plasma density at the current position.',
 ['schedules','configurations','inputs'],
 'All interleavings produced by arbitrary per-bunch steps, per-field periods and output periods, both pushers, time-dependent external fields and fields that depend self-consistently on the bunches.',
 'Unit tests check single pushers and single stages against stored numbers; they do not vary the relative periods, so a swapped or stale event goes unnoticed.',
 [TR,PB,BP,RK,'wake_t/fields/gather.py',NF,FE],
 [('event selection','Tracker._run_tracking_loop'),('field gathering','gather_fields'),('pushers','apply_boris_pusher / apply_rk4_pusher')],
 ['final phase space and snapshots of every bunch'])

prop('C04', 'Outputs are complete, evenly spaced and taken at the right moment',
 'With n_out outputs a field-based element returns n_out+1 snapshots per bunch (the first one being the incoming bunch) and a transfer-map element n_out, at equally spaced positions along the element, the last one equal to the outgoing bunch; no output is lost or duplicated. With pushing before outputs on, every snapshot is at exactly its output position; with it off, snapshots lag by less than one bunch step and the outgoing bunch is bit-for-bit independent of n_out.',
 ['configurations','schedules'],
 'All n_out (including 0), steps, periods, bunch counts and element types, including output times that coincide with pushes or field updates.',
 'Tests use one n_out per case and look at the last output only.',
 [TR,FE,TM],
 [('output events','Tracker.generate_diagnostics'),('output steps of transfer-map elements','TMElement._determine_steps')],
 ['lists returned by track()'])

prop('C05', 'Returned snapshots are independent and complete enough to resume from',
 'A snapshot or copy of a bunch never changes when the bunch (or another snapshot) is tracked further or modified, and vice versa. A copy, and a bunch rebuilt from the exported phase-space matrices, carries everything later tracking depends on, so dropping the live bunch at any element boundary and continuing from its copy or last snapshot gives exactly the bunch an uninterrupted run gives.',
 ['histories','crash_points','configurations'],
 'All sequences of field-based and transfer-map elements, all element boundaries as restart point, bunches with injection position, tags, bent reference trajectory, any species.',
 'Tests never modify a bunch after collecting outputs and never resume from one.',
 [PB,TM,TR,BL],
 [('ParticleBunch.copy',PB),('creation of output bunches','TMElement._create_new_bunch')],
 ['snapshots returned by track()','ParticleBunch.copy()'])

prop('C06', 'A beamline is the composition of its elements',
 'Tracking through a beamline (also a nested one) gives exactly the same outgoing bunches and the concatenation of the outputs obtained by tracking element after element by hand. Positions accumulate consistently: propagation distance grows by the sum of lengths, the reference angle by the sum of bending angles, the reference offset follows the plane curve with these bends, and splitting a drift, a bending magnet (to first order), or a static-field element at a step boundary into consecutive pieces leaves the result unchanged.',
 ['programs','configurations'],
 'All sequences of element types, lengths, bending angles and energies, numbers of outputs, with and without written output.',
 'The beamline test covers one fixed sequence and compares to stored numbers.',
 [BL,FE,TM,OP],
 [('element loop','Beamline.track'),('reference frame hand-over','TMElement._create_new_bunch / _get_beam_matrix_for_tracking')],
 ['outgoing bunch, returned list, prop_distance, x_ref, theta_ref'])

prop('C07', 'Tracking results do not depend on what was tracked before',
 'Tracking a bunch through elements gives the same result whether the element, stage or field objects are new or have already tracked other bunches (of other energies, sizes or species) or the same ones, and whatever unrelated trackings ran before in the process, including failed ones. Only two kinds of state are shared on purpose: a laser pulse handed from stage to stage, and the CSR trajectory of consecutive CSR elements, which starts afresh after a non-CSR element or an explicit reset.',
 ['histories','fault_sequences'],
 'All histories of trackings, copies, resets and failures preceding a tracking, over pools of shared element and bunch objects.',
 'Every test builds fresh objects in a fresh process and tracks once.',
 [TM,CSR,NF,PS,PB,TR],
 [('no state kept on elements','TMElement.track'),('field re-initialisation','Tracker._run_tracking_loop'),('CSRCalculator.clear',CSR)],
 ['outgoing bunch and snapshots'],
 [('module-level CSR calculator','shared trajectory',CSR)])

prop('C08', 'Written openPMD output is a faithful, continuous record of the run',
 'With openPMD output on, each output of each element yields exactly one file in the folder given (relative to the working directory at that moment), numbered contiguously from 0 in the order of simulated time across all elements of a beamline. Each file holds, for every bunch under its own name, the phase space, weights, charge and mass of the corresponding snapshot in SI units, the field arrays at that moment, the accumulated simulated time with matching global longitudinal offset (time times c), and the time between outputs; two bunches with the same name are rejected instead of overwriting each other.',
 ['configurations','histories'],
 'All beamlines, bunch sets, species, field models and numbers of outputs, with one diagnostics object reused over any sequence of elements.',
 'Tests only check that some fields can be read back; numbering, timing and content across elements are not compared to the in-memory state.',
 [OP,TR,TM,BL,PB,RZ],
 [('OpenPMDDiagnostics.write_diagnostics',OP),('increase_z_pos',OP)],
 ['HDF5 files in the output folder'])

prop('C09', 'Outputs already written survive a crash at any later moment',
 'Once the writing of an output has completed, its file stays complete, readable and unchanged whatever happens later: if the process dies at any point of a later write, or anywhere else, all previously completed outputs read back exactly as in a crash-free run, and there is at most one incomplete file, the one in flight. Running the simulation again into the same folder then produces the full correct series.',
 ['crash_points','schedules'],
 'Process death before, in the middle of, and after every individual file operation of every output of a run, and at every simulation event between outputs.',
 'No test kills the process; durability depends on when the data and metadata of each file are flushed and closed.',
 [OP,TR,TM],
 [('one series per output, closed before the write returns','OpenPMDDiagnostics.write_diagnostics')],
 ['HDF5 files left by the dead process'])

prop('C10', 'Storage errors are reported, never swallowed, and do no further damage',
 'If storage fails while an output is being written (disk full, I/O error, permission, failing open or directory creation), the tracking call raises, no output is reported as written that cannot be read back, and all earlier outputs stay intact. Short writes and interrupted calls that the storage layer may legally produce lead to no corruption, and after the fault clears the same diagnostics object continues the series without a gap or duplicate number.',
 ['fault_sequences'],
 'Transient and persistent errors of every kind at every file operation of every output, in any element of a run, followed or not by recovery and retry.',
 'No test injects an I/O error.',
 [OP,TR,TM],
 [('counter increased only after a successful write','OpenPMDDiagnostics.write_diagnostics')],
 ['exceptions from track()','HDF5 files'])

prop('C11', 'Results do not depend on thread scheduling or thread count',
 'All parallel loops are free of data races and of loop-carried state: for every number of threads, every partition of the iterations over threads and every interleaving of their memory accesses, tracking gives the result of the sequential execution.',
 ['schedules'],
 'All thread counts, chunkings and instruction-level interleavings of the parallel kernels reached by pushing, gathering and field calculations, for all bunch sizes.',
 'Tests run with one thread; a race shows only under particular interleavings.',
 [BP,RK,IN,'wake_t/fields/gather.py','wake_t/fields/analytical_field.py','wake_t/utilities/numba.py','wake_t/physics_models/em_fields/quadrupole.py','wake_t/physics_models/plasma_wakefields/simple_blowout.py'],
 [('independent iterations in prange loops','all kernels decorated njit_parallel'),('serial deposition','wake_t/particles/deposition.py')],
 ['phase space and field arrays after tracking'])

prop('C12', 'A failed or interrupted tracking leaves the process usable',
 'If anything raises during tracking (a field, a density profile, an output, a keyboard interrupt at any point), the exception reaches the caller unchanged, the number of threads configured outside is restored, bunches that were not being tracked are untouched, earlier outputs stay intact, and tracking again with new bunches gives the result of a fresh process. The same thread setting is restored after a successful tracking.',
 ['fault_sequences','histories','crash_points'],
 'Every seam call and every executed line of the tracking code as the point of failure, any exception type, any element type, with and without written output.',
 'No test lets a tracking fail.',
 [TR,FE,TM,NF,'wake_t/utilities/numba.py'],
 [('thread count restored in all cases','Tracker.do_tracking'),('no state left on elements and fields',TR)],
 ['numba thread count','exceptions from track()','later trackings'])

prop('C13', 'A laser pulse evolves exactly once per field update across stages',
 'A laser handed through consecutive stages is advanced by exactly the length of each stage, once per field update after the initial one, with the plasma response and density of the previous update; it continues from where the previous stage left it, so cutting a stage in two at an update changes nothing, and it stays constant when its evolution is switched off. Changing the grid of an initialised pulse is rejected and leaves it as it was; changing only the step size or the other settings of the solver is accepted and holds from then on.',
 ['histories','configurations'],
 'All sequences of stages, lengths, update periods, substeps, subgrids and polarizations sharing one pulse, tracked with or without bunches and outputs, including re-tracking of a stage.',
 'The multi-stage laser test compares one configuration with stored numbers.',
 [LP,RZ,NF,PS],
 [('solver parameter hand-over','LaserPulse.set_envelope_solver_params'),('RZWakefield._evolve_properties',RZ)],
 ['LaserPulse.get_envelope()','calls of LaserPulse.evolve'])

prop('C14', 'Bunches move ballistically until their injection position',
 'A bunch with an injection position feels no field at all until its foremost particle (position within the beamline plus longitudinal offset) has reached that position, and the full fields afterwards, judged at the beginning of every push and over the whole beamline, not per element. A bunch without injection position always feels the fields.',
 ['configurations','histories'],
 'All injection positions before, within and beyond any element of a beamline, all bunch lengths, steps, pushers, numbers of outputs and coexisting bunches.',
 'One test covers a single position in a single stage.',
 [PB,TR],
 [('injection test','ParticleBunch.evolve')],
 ['phase space during and after tracking'])

prop('C15', 'Bunches and parameters survive saving and reading back',
 'A bunch saved to openPMD and read back has the same particles, weights, species and name, for any species; saved to ASTRA (electrons, positrons) or CSRtrack (electrons), the same particles in the same order up to the digits of the text format, behind the reference particle these formats put in front. On request the average longitudinal position is removed and becomes the propagation distance. Saved beam parameters and bunches of the HDF5 helpers read back unchanged. If storage fails while saving, the call raises or the saved file is complete, and other saved files are not harmed.',
 ['inputs','fault_sequences','histories'],
 'All bunches and species, file formats, file names in existing or new folders, overwriting, and storage faults at any file operation.',
 'Round-trip tests cover one random bunch per format without faults; reading saved parameters is not tested.',
 ['wake_t/utilities/bunch_saving.py','wake_t/utilities/bunch_generation.py','wake_t/diagnostics/bunch_analysis.py'],
 [('save_bunch_to_file','wake_t/utilities/bunch_saving.py'),('get_from_file','wake_t/utilities/bunch_generation.py'),('save/read_parameters','wake_t/diagnostics/bunch_analysis.py')],
 ['objects read back'])

prop('C16', 'Tracking never loses, invents, reorders or relabels particles',
 'Through any sequence of elements and in every output, in memory and on disk, a bunch keeps its number of macroparticles, their order, each weight bit for bit, its tags, name, species charge and mass; this holds also for particles on axis or outside the field box, in every wakefield model, with CSR and with particles overtaken or slipping out of the window. The particles of a bunch given in another order come out with the same coordinates in that order.',
 ['histories','configurations','inputs'],
 'All element sequences, wakefield models, bunch shapes (including particles outside all grids), species and weights.',
 'Tests look at averaged beam parameters; a permuted or reweighted particle does not show there.',
 [PB,TM,TR,OP],
 [('in-place coordinate updates','pushers'),('copies with all properties','ParticleBunch.copy, TMElement._create_new_bunch')],
 ['bunches and outputs after tracking'])

prop('C17', 'Observing a run does not change it, and runs are reproducible',
 'The same tracking gives bit-for-bit the same bunches with or without written output, with or without progress bar, with or without analysing bunches and outputs in between, whatever the wall clock does, whatever number of threads is configured, and whatever the state of the global random generator, which tracking leaves untouched. Working directory, environment and numpy error settings of the process stay as they were. With push_bunches_before_diags=False the number of outputs does not change the outgoing bunches at all, and in first-order transfer maps without CSR only by rounding.',
 ['configurations','schedules','fault_sequences'],
 'All elements and wakefield models, observation options, clock jumps backwards and forwards, random-generator states, hash seeds.',
 'Tests do not compare runs that differ only in observation.',
 [TR,TM,OP,'wake_t/tracking/progress_bar.py'],
 [('read-only diagnostics',OP)],
 ['bunches with and without observation'])

prop('C18', 'Bunches tracked together do not disturb each other in external fields',
 'In fields that do not depend on the bunches, tracking several bunches together gives every bunch exactly the result of tracking it alone with the same step and outputs, in any order of the list, with per-bunch fixed or adaptive steps, and returns the outputs of each bunch at its place in the list.',
 ['configurations','schedules'],
 'All sets of bunches with different steps, species, energies, sizes, injection positions, and all list orders.',
 'Tests track one bunch at a time, or a fixed driver/witness pair.',
 [TR,FE,PB],
 [('per-bunch time and step','Tracker._run_tracking_loop'),('per-bunch work arrays','ParticleBunch.get_field_arrays')],
 ['outgoing bunches and outputs'])

prop('C19', 'Generated bunches are reproducible and as requested',
 'A generated bunch has the requested number of particles, total charge (to rounding, for any species), name and species, is truncated at three standard deviations in length, and its means, sizes, divergences, correlations (Twiss parameters), energy and energy spread are the requested ones within sampling error, with all other coordinates uncorrelated; a matched bunch has the beta function of the given focusing gradient or plasma density. All random numbers come from the global generator a user seeds: the same seed gives the same sequence of bunches bit for bit, whatever was generated, tracked, failed or interrupted before, and consecutive bunches use different numbers. Bunches created without a name get a name no other unnamed bunch of the process has.',
 ['histories','inputs','fault_sequences'],
 'All requests to the generators, seeds of the random generator, and histories of earlier generations, trackings, failures and interrupts.',
 'Tests generate a few electron bunches with one set of parameters and look at tracked averages.',
 ['wake_t/utilities/bunch_generation.py',PB],
 [('random numbers and scaling','get_gaussian_bunch_from_twiss'),('unnamed bunches','ParticleBunch.set_name')],
 ['generated ParticleBunch objects'])

prop('C20', 'Wakefields depend on where the charge is, not on how it is given',
 'In stages with self-consistent wakefields the particles move the same (exactly, or to rounding where sums are reordered) however the same charge is presented: a bunch divided into several bunches, macroparticles divided into several at the same place, the list reordered, particles outside the box, uncharged particles or pairs of opposite charge at the same place added, or a species of the same charge but other mass used as source. The fields are axially symmetric: rotating or mirroring all bunches about the axis rotates or mirrors the result. They are causal: charge far behind a particle (beyond the reach of particle shape and interpolation) never affects it.',
 ['configurations','schedules','inputs'],
 'All bunch lists, species, charges, wakefield models (with and without laser, channel, external fields), grids, particle shapes, steps, update periods and outputs.',
 'Tests use one driver and one witness bunch of one species, in one order, and compare with stored averages.',
 ['wake_t/physics_models/plasma_wakefields/qs_cold_fluid_1x3p.py','wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/solver.py','wake_t/particles/deposition.py',IN,RZ],
 [('sum over bunches','Quasistatic2DWakefield / FluidWakefield: beam source'),('deposition',  'deposit_3d_distribution'),('gathering','gather_main_fields_cyl_linear')],
 ['outgoing bunches and outputs'])

prop('C21', 'Reported beam parameters and bunch data describe the particles',
 'Whatever was done to a bunch before (tracking through any elements, setting its charge or phase space, rebuilding it from either matrix form, moving it, copying it and changing the copy), all ways of reading it (charges, both kinds of matrices, coordinates) give the particles it was last given, and none of them changes it. Beam parameters computed from any list of bunches, such as all outputs of a run in any order, have one entry per bunch, each equal to the analysis of that bunch alone and to what its own particles give: propagation distance, total charge with its sign, weighted averages, rms sizes, energy and spread, projected and slice emittances, Twiss parameters, angles, peak current. Analyses, also failed or interrupted ones, leave the bunches unchanged.',
 ['histories','inputs','fault_sequences'],
 'All bunches of any species and weights, histories of operations on them, lists of outputs, numbers of slices, points of interruption.',
 'Tests analyse electron bunches of equal weight and compare a few of the parameters of the last output.',
 ['wake_t/diagnostics/bunch_analysis.py',PB],
 [('one entry per bunch','analyze_bunch_list'),('definition of the parameters','_get_distribution_parameters'),('charge and matrix forms','ParticleBunch.q / set_bunch_matrix / get_6D_matrix')],
 ['return values','ParticleBunch objects'])

# ---- listed, not claimed (pure functions: nothing for the technique to schedule or fault)
def na(id, title, st, files): 
    prop(id, title, st, ['inputs'], 'All valid inputs.', 'A numerical-accuracy statement over a continuum of inputs; tests sample single cases.', files, [('numerical kernel', files[0])], ['return values'])
na('C30','Transfer maps are correct to the requested order','First- and second-order maps of drifts, bends, quadrupoles and sextupoles agree with the equations of motion to the order requested.',['wake_t/physics_models/beam_optics/transfer_matrices.py','wake_t/particles/push/transfer_matrix.py'])
na('C31','Charge and current deposition conserves charge','The charge deposited on the grid equals the charge of the particles inside the box for every particle shape.',['wake_t/particles/deposition.py'])
na('C32','Quasistatic and fluid wakefields converge to the physical solution','Computed wakefields converge to the solution of the quasistatic plasma equations with increasing resolution.',['wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/solver.py','wake_t/physics_models/plasma_wakefields/qs_cold_fluid_1x3p.py'])
na('C33','The envelope solver propagates a laser correctly in vacuum and plasma','The envelope reproduces analytical diffraction in vacuum and converges with resolution in plasma.',['wake_t/physics_models/laser/envelope_solver.py'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title'])<=80,p['title']
        f.write(json.dumps(p)+'\n')
