"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
R = 'qiskit/ignis/'
P = []


def p(i, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append({'id': i, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': [R + f for f in files],
                          'mechanism': [{'name': n, 'where': R + w} for n, w in mech],
                          'observe_at': observe}})


p('C01', 'Readout calibration circuits prepare every basis state of every group once',
  'For every list (or list of groups) of distinct qubits, the readout-calibration generators return one circuit per basis label of the largest group, named with the caller\'s label prefix followed by "cal_" and the prepared label. Executing a circuit ideally yields exactly its label: the i-th listed qubit is prepared in, and measured into, the i-th classical bit counted from the right, groups laid out in order from the right, and a smaller group gets the leading characters of the label. Lists with repeated qubits, or no qubits at all, are rejected.',
  ['inputs', 'configurations'], 'all qubit lists and group patterns (any order, gaps, unequal group sizes, given or default registers), all labels',
  'The tests compare a few fixed lists in ascending order on a simulator; the order of qubits, gaps, groups of unequal size and explicit registers are not sampled.',
  ['mitigation/measurement/circuits.py'],
  [('complete_meas_cal', 'mitigation/measurement/circuits.py'), ('tensored_meas_cal', 'mitigation/measurement/circuits.py')],
  'returned circuits, labels and pattern')

p('C02', 'Calibration matrices are the column-normalised tally of all data added so far',
  'After any history of adding calibration results (one or many at a time, circuits repeated across results, in any order, with deferred rebuilds), every group\'s calibration matrix holds in row r, column c the fraction of the accumulated shots prepared in label c of that group that were read out as label r of that group; a column without data is zero and nothing else influences it. Custom label orders, the readout fidelity (mean of the diagonal, or of label-group blocks) and the matrix of a qubit subset (average over the states of the qubits left out) follow from that same tally. Adding nothing changes nothing.',
  ['inputs', 'histories'], 'all histories of result additions, group patterns, label orders and qubit subsets',
  'Tests build one fitter from one symmetric synthetic result set; incremental, deferred, reordered and repeated data and asymmetric noise are not sampled.',
  ['mitigation/measurement/fitters.py'],
  [('CompleteMeasFitter', 'mitigation/measurement/fitters.py'), ('TensoredMeasFitter', 'mitigation/measurement/fitters.py')],
  'cal_matrix / cal_matrices / readout_fidelity / subset_fitter')

p('C03', 'Applying a readout filter inverts the calibration matrix consistently',
  'For every invertible calibration matrix, label order and counts, the pseudo-inverse mitigated counts multiplied by the calibration matrix give back the measured counts, and the least-squares mitigated counts are non-negative, keep the total number of shots and are at least as close to the data as any other such candidate. Dictionary, list, stacked-list and result inputs give the same answer for the same data, the input object is left unchanged, every experiment of a result is mitigated from its own counts, and a filter built from independent groups equals the filter built from the tensor product of their matrices. Input whose length or bit strings do not belong to the calibrated space is rejected.',
  ['inputs', 'configurations'], 'all invertible calibration matrices up to three qubits, label orders, group patterns, counts and input forms',
  'Tests use a handful of fixed matrices and compare with loose tolerances against the ideal answer on two forms.',
  ['mitigation/measurement/filters.py'],
  [('MeasurementFilter.apply', 'mitigation/measurement/filters.py'), ('TensoredFilter.apply', 'mitigation/measurement/filters.py')],
  'values returned by apply')

p('C04', 'Expectation-value mitigators agree with the measured assignment matrices',
  'The calibration circuits, fitters and mitigators for expectation values agree on one assignment matrix: prepared label by measured label, estimated from all supplied shots of the matching circuits (per-qubit matrices from the shots in which the other qubits were read as prepared; restricting a complete matrix to some qubits keeps the columns with the others prepared in 0 and sums over their readout). For any counts, subset and order of qubits and diagonal observable, the complete and tensored mitigators return the observable\'s mean under the inverse-mapped distribution (unmitigated: the plain sample mean) with the error bar of that estimator; matrices restricted to listed qubits, and counts restricted to listed classical bits, refer to exactly those qubits or bits in that order.',
  ['inputs', 'configurations'], 'all assignment matrices, counts, qubit subsets and orders, and diagonals',
  'Tests compare against an ideal value with tolerance 0.1 on Z-type observables, for ascending qubit lists only.',
  ['mitigation/expval/circuits.py', 'mitigation/expval/fitter.py', 'mitigation/expval/complete_mitigator.py', 'mitigation/expval/tensored_mitigator.py', 'mitigation/expval/utils.py', 'mitigation/expval/base_meas_mitigator.py'],
  [('expectation_value', 'mitigation/expval/utils.py'), ('CompleteExpvalMeasMitigator', 'mitigation/expval/complete_mitigator.py'), ('TensoredExpvalMeasMitigator', 'mitigation/expval/tensored_mitigator.py')],
  'values returned by the mitigators and fitters')

p('C05', 'Tomography circuits prepare, run and measure exactly what their label says',
  'Every tomography generator returns one circuit per label in the requested product of preparations and measurements, with no duplicates. Each labelled circuit prepares the i-th prepared qubit in the state named by the i-th preparation label, then runs the caller\'s circuit unchanged, then measures the i-th measured qubit in the basis named by the i-th measurement label into the i-th tomography classical bit (the first classical bits of the circuit), leaving the caller\'s circuit object untouched.',
  ['inputs', 'programs', 'configurations'], 'all user circuits with or without own classical registers, lists of prepared and measured qubits in any order, Pauli and SIC bases',
  'Tests reconstruct a few states end-to-end with loose fidelity thresholds; label/qubit permutations and pre-existing registers cancel out or are not sampled.',
  ['verification/tomography/basis/circuits.py', 'verification/tomography/basis/paulibasis.py', 'verification/tomography/basis/sicbasis.py', 'verification/tomography/basis/tomographybasis.py'],
  [('_tomography_circuits', 'verification/tomography/basis/circuits.py'), ('pauli/sic basis circuits', 'verification/tomography/basis/paulibasis.py')],
  'generated circuits')

p('C06', 'Tomography fitters reconstruct the state or process behind exact data',
  'Data handed to a tomography fitter is stored per circuit label with the tomography bits only, in label order, whatever other classical registers, result order or number of result objects it came in. From data that is the exact outcome statistics of a state or channel, linear-inversion and least-squares fits return that state (density matrix, unit trace) or channel (Choi matrix), and from any data they return a Hermitian, positive semidefinite matrix of the requested trace (constrained convex process fits: a trace-preserving channel; convex state fits: the state of least weighted squared residual). Marginalising, combining and weighting count data preserve totals and refer to the selected bits, kept in ascending order.',
  ['inputs', 'configurations'], 'all label sets, registers, result splits and exact or noisy counts up to three qubits',
  'Tests check fidelity above a threshold for one or two states from sampled data.',
  ['verification/tomography/fitters/base_fitter.py', 'verification/tomography/fitters/state_fitter.py', 'verification/tomography/fitters/process_fitter.py', 'verification/tomography/fitters/lstsq_fit.py', 'verification/tomography/fitters/cvx_fit.py', 'verification/tomography/data.py'],
  [('TomographyFitter', 'verification/tomography/fitters/base_fitter.py'), ('lstsq_fit', 'verification/tomography/fitters/lstsq_fit.py'), ('marginal_counts', 'verification/tomography/data.py')],
  'data property and fit results')

p('C07', 'Randomized-benchmarking sequences compose to the identity on every pattern',
  'For every pattern of disjoint qubit groups, length vector, multiplier, group, seed count and interleaved element, each generated sequence, executed ideally, returns all its qubits to the ground state (for CNOT-dihedral sequences: the basis for which the sequence is built), ends by measuring the i-th benchmarked qubit into classical bit i, and is named after its seed and length index. Shorter lengths are prefixes of the same random sequence, interleaved sequences are the reference sequences with exactly the given element after every random one, simultaneous groups do not touch each other, and purity sequences differ from the reference only by the labelled pre-measurement rotations. The random elements of different groups and different seeds of one request are drawn independently.',
  ['inputs', 'configurations'], 'all patterns, lengths, multipliers, seeds, groups and interleaved elements up to five qubits',
  'Tests simulate a fixed grid of patterns and check only a ground-state population from sampled shots.',
  ['verification/randomized_benchmarking/circuits.py', 'verification/randomized_benchmarking/rb_groups.py'],
  [('randomized_benchmarking_seq', 'verification/randomized_benchmarking/circuits.py'), ('RBgroup', 'verification/randomized_benchmarking/rb_groups.py')],
  'generated circuits')

p('C08', 'CNOT-dihedral elements form a group that agrees with their circuits',
  'Every CNOT-dihedral element denotes one unitary up to global phase: building it from a circuit, composing (either order), dotting, inverting, conjugating, transposing, raising to a positive power, tensoring (the first operand on the lower-numbered qubits), appending gates and converting back to a circuit all act on that unitary as the corresponding matrix operation. Two elements compare equal exactly when their unitaries agree up to phase; operations never change their operands; circuits and data outside the group are rejected, and random elements range over the whole group.',
  ['inputs', 'histories'], 'all elements (exhaustive for one qubit, sampled words up to six qubits) and all operation sequences',
  'Tests use random elements for a few operations and never combine operation results.',
  ['verification/randomized_benchmarking/dihedral.py'],
  [('CNOTDihedral', 'verification/randomized_benchmarking/dihedral.py')],
  'elements, their circuits and equality')

p('C09', 'Benchmarking fitters report the ground-state statistics of all data added',
  'After any history of adding results (split over several result objects, seeds in any order, circuits repeated, deferred refits), each benchmarking fitter\'s raw data is, per pattern, seed and length, the accumulated fraction of shots in which that pattern\'s own bits were all zero, and its summary is the mean and standard deviation over seeds. The reported parameters are the least-squares fit of the decay model to the means, weighted by that spread whenever every length has one; on data that follows the model exactly the decay is recovered. The reported error per Clifford, interleaved-gate error with its bounds, purity error and dihedral error, and their error bars, are the documented functions of the fitted decays, their errors and the pattern\'s own dimension.',
  ['inputs', 'histories'], 'all histories of additions, patterns, seeds, lengths and counts',
  'Tests load a few pickled data sets and compare with stored numbers.',
  ['verification/randomized_benchmarking/fitters.py'],
  [('RBFitter', 'verification/randomized_benchmarking/fitters.py'), ('InterleavedRBFitter', 'verification/randomized_benchmarking/fitters.py'), ('PurityRBFitter', 'verification/randomized_benchmarking/fitters.py'), ('CNOTDihedralRBFitter', 'verification/randomized_benchmarking/fitters.py')],
  'raw_data, ydata, fit')

p('C10', 'Gate counts and error-per-gate estimates follow the benchmarking formulas',
  'The average number of each basis gate per Clifford reported for a pattern equals the number of those gates on each qubit of the transpiled circuits divided by the number of Cliffords in them. The conversions between gate errors, coherence limits and errors per Clifford are the documented product formulas for every gate mix and qubit order, are mutually inverse where the documentation says so, and reject inputs with missing or unsupported gates.',
  ['inputs', 'configurations'], 'all circuits, gate sets, error values and qubit pairs',
  'Tests compare with single stored values for one device-like setting.',
  ['verification/randomized_benchmarking/rb_utils.py'],
  [('gates_per_clifford', 'verification/randomized_benchmarking/rb_utils.py'), ('calculate_1q_epg', 'verification/randomized_benchmarking/rb_utils.py'), ('calculate_2q_epg', 'verification/randomized_benchmarking/rb_utils.py'), ('coherence_limit', 'verification/randomized_benchmarking/rb_utils.py')],
  'returned values')

p('C11', 'Quantum-volume heavy outputs and success decisions follow the ideal circuits',
  'For every list of qubit subsets and number of trials, each measured volume circuit is its ideal companion followed by measuring every listed qubit into the bit of its position in the list. After any history of adding ideal and measured results, in any order and split, the heavy outputs are exactly the outcomes whose ideal probability exceeds the median, each trial\'s heavy-output probability is the fraction of measured shots that are heavy, and the reported means, error bars, confidence and pass/fail decisions are the documented functions of those numbers.',
  ['inputs', 'histories'], 'all widths, ideal distributions, measured counts and addition histories',
  'Tests load two pickled data sets and compare with stored numbers.',
  ['verification/quantum_volume/circuits.py', 'verification/quantum_volume/fitters.py'],
  [('qv_circuits', 'verification/quantum_volume/circuits.py'), ('QVFitter', 'verification/quantum_volume/fitters.py')],
  'circuits, heavy_outputs, ydata, qv_success, quantum_volume')

p('C12', 'Repetition-code circuits record exactly the injected bit flips in their readout',
  'For every code distance, number of syndrome rounds, reset mode and construction order, the two logical circuits encode 0 and 1 redundantly, and each round measures the parity of each neighbouring pair of code qubits into its link qubit (reset between rounds when resets are on). Processing the raw readout lists the two logical values and then, per round, the changes of every parity since the previous round, so that without faults everything after the logical values is zero; a bit flip of a code qubit anywhere changes exactly the parities next to it in the round that first sees it (and the logical readout when it is a boundary qubit), and a flipped parity readout shows in two consecutive rounds.',
  ['configurations', 'fault_sequences'], 'all distances 2-5, rounds 0-4, both reset modes, all single and multiple fault placements, all methods that build the circuit step by step',
  'Tests run noiseless circuits of one or two sizes and one hard-coded fault pattern.',
  ['verification/topological_codes/circuits.py'],
  [('RepetitionCode', 'verification/topological_codes/circuits.py')],
  'circuits and process_results output')

p('C13', 'The graph decoder corrects every fault set the code can correct',
  'The decoder\'s syndrome graph has an edge between two detection events, weighted by the code\'s distance between them, exactly when a single fault can produce the pair. For any set of at most (d-1)/2 faults of the circuit, matching restores the logical value that was stored; matching returns every shot exactly once, results for a stored value are never mixed with the other, and logical and lookup error probabilities are the fractions of shots that decode to the wrong value. After weighting the graph from results, edges carry the documented log-ratios and decoding follows them.',
  ['configurations', 'fault_sequences'], 'all distances 3-5, rounds, fault sets and count tables',
  'Tests decode random noisy samples and assert only that the logical error rate is below a threshold.',
  ['verification/topological_codes/fitters.py'],
  [('GraphDecoder', 'verification/topological_codes/fitters.py'), ('lookuptable_decoding / postselection_decoding', 'verification/topological_codes/fitters.py')],
  'syndrome graph, matching output, probabilities')

p('C14', 'Accreditation circuits hide the target and always reveal the trap outcome',
  'For every target circuit of the accepted form, each generated batch contains the target exactly once, at the reported position, and traps elsewhere, all with the same two-qubit gates on the same qubits in the same layers. Executed ideally and corrected with its own post-processing string, every trap yields all zeros and the target yields the outcome distribution of the original circuit; circuits outside the accepted form (resets, conditional gates, gates after a measurement, several quantum registers, unknown two-qubit gates) are rejected. The target position and the one-time pads (all Paulis in every layer) vary from batch to batch and, without a seed, from object to object, and any single Pauli fault in a two-qubit layer changes the outcome of some of the traps.',
  ['inputs', 'programs'], 'all accepted circuits, numbers of traps and random choices',
  'Tests check only structural counts on one circuit and statistics on a simulator.',
  ['verification/accreditation/circuits.py', 'verification/accreditation/qotp.py'],
  [('AccreditationCircuits', 'verification/accreditation/circuits.py'), ('layer_parser / QOTP_fromlayers', 'verification/accreditation/qotp.py')],
  'generated circuits, post-processing strings, position')

p('C15', 'The accreditation verdict is a function of the recorded runs only',
  'After any sequence of protocol runs, a run is flagged accepted exactly when every one of its traps, after applying its post-processing string, gave all zeros; the numbers of runs and acceptances and the list of outputs are those of this fitter\'s own runs, the outputs being the corrected outcomes of the accepted runs\' targets in order. The variation-distance bound for threshold theta is g*1.7/(traps+1)/(accepted/runs - theta) + 1 - g, capped at 1, with confidence 1-2exp(-2*theta*runs^2), and the trivial bound 1 when the acceptance does not exceed theta, always for the present runs. Separate fitters never influence each other; runs that are not single-shot, have fewer than three traps or another number of traps than before are rejected without trace, and so is asking for a bound without an accepted run.',
  ['inputs', 'histories'], 'all histories of runs, strings, positions and thresholds, several fitters alive at once',
  'Tests append one recorded data set to one fitter.',
  ['verification/accreditation/fitters.py'],
  [('AccreditationFitter', 'verification/accreditation/fitters.py')],
  'flag, N_acc, num_runs, outputs, bound, confidence')

p('C16', 'Characterization circuits implement the documented delay and gate sequences',
  'For every list of qubits, delays or repetition counts, each characterization generator returns one circuit per requested point, in order, named by its index, together with an abscissa that equals the delay (or the number of calibrated gates: twice the repetitions for one-qubit, the repetitions for controlled-NOT calibrations) of the documented sequence, which every listed qubit actually undergoes. The i-th listed qubit is measured into the i-th classical bit, spectator and control qubits, shared or not, are flipped exactly once and exactly in the circuits that say so, and no other qubit is touched. Delays and repeated gates survive transpiler optimization, and an artificial amplitude or angle error shows in the populations as the error it announces.',
  ['inputs', 'configurations'], 'all qubit lists, delays, echo numbers, oscillation numbers and spectators',
  'Tests execute one fixed configuration on a noisy simulator and check fitted times loosely.',
  ['characterization/coherence/circuits.py', 'characterization/hamiltonian/circuits.py', 'characterization/gates/circuits.py', 'characterization/characterization_utils.py'],
  [('t1_circuits, t2_circuits, t2star_circuits', 'characterization/coherence/circuits.py'), ('zz_circuits', 'characterization/hamiltonian/circuits.py'), ('ampcal / anglecal circuits', 'characterization/gates/circuits.py')],
  'circuits and abscissae')

p('C17', 'Characterization fitters reduce results to the right populations and parameters',
  'After any history of adding results, each fitter\'s data for every series and qubit is the accumulated fraction of shots in which that qubit\'s own classical bit shows the expected outcome, point by point in circuit order, with the binomial standard error (and a small positive error when it would vanish). On data following the documented model exactly, the fit returns the model\'s parameters, and the derived quantities (times, ZZ rate, angle and amplitude errors) are the documented functions of them for each qubit separately; on noisy data the fit is the least-squares optimum weighted by these errors, started from the given start values (or its own guess from that qubit\'s data) and within the given bounds, and reports the standard errors of its covariance.',
  ['inputs', 'histories'], 'all histories of results, qubits, series and counts',
  'Tests load pickled data for one or two qubits and compare with loose bounds.',
  ['characterization/fitters.py', 'characterization/coherence/fitters.py', 'characterization/hamiltonian/fitters.py', 'characterization/gates/fitters.py'],
  [('BaseFitter and subclasses', 'characterization/fitters.py')],
  'ydata, params, time(), ZZ_rate(), angle_err()')

p('C18', 'Discriminators classify and count measured levels per shot and qubit',
  'A discriminator is trained on exactly the calibration shots of the schedules it was given (by default every calibration schedule of its results; names or Schedule objects), each shot labelled by the state stated for, or announced by, its schedule, for every history of added data with and without refitting; contradictory or missing input is rejected without effect and the arguments are left unmodified. Its features are the I then the Q values of the masked qubits in mask order, read from exactly the experiments of the kind asked for (calibrations, others, all), and a shot lying in a calibration cloud is classified as that cloud\'s label. Filtering returns the level-1 experiments of a result in order as level-2 experiments whose memory holds the label of each of their own shots (one entry for averaged data) and whose counts tally exactly these labels read as numbers in the base of the discriminated levels, leaving the input result unchanged.',
  ['inputs', 'histories'], 'all calibration sets, qubit masks, expected states, schedules and shot data',
  'Tests use one fixed synthetic data set per discriminator and compare one classification.',
  ['measurement/discriminator/discriminators.py', 'measurement/discriminator/filters.py', 'measurement/discriminator/iq_discriminators.py'],
  [('BaseDiscriminationFitter', 'measurement/discriminator/discriminators.py'), ('DiscriminationFilter', 'measurement/discriminator/filters.py'), ('IQDiscriminationFitter', 'measurement/discriminator/iq_discriminators.py')],
  'discriminate() and filter results')

p('C19', 'Entanglement circuits create the GHZ state they advertise on any device graph',
  'For every connected coupling graph and every number of qubits up to the device size, each GHZ generator\'s circuit maps the ground state to the equal superposition of all-zeros and all-ones on exactly the announced device qubits, using only two-qubit gates the (directed, when transpiled) coupling graph allows, growing from a most-connected qubit in steps of disjoint pairs, lower-error couplings of a qubit first; planning finishes promptly on deep graphs and ignores uncoupled qubits. The multiple-quantum-coherence variants give outcome zero with probability (1+cos(n delta))/2 and otherwise flip only the first qubit; the parity-oscillation variants give each outcome the probability (1+-cos(n delta))/2^n by its parity; both also in parametrised form, measuring all announced qubits in order or only the first. The analysis helpers compute exactly the documented ordered counts, composite parity, corner fidelity, Fourier components, fidelity bounds and raw and mitigated fidelities.',
  ['inputs', 'configurations'], 'all sizes up to six and all connected coupling graphs up to six vertices',
  'The only existing test of this module does not run here, and otherwise samples one size.',
  ['verification/entanglement/linear.py', 'verification/entanglement/parallelize.py', 'verification/entanglement/analysis.py'],
  [('linear GHZ circuits', 'verification/entanglement/linear.py'), ('BConfig', 'verification/entanglement/parallelize.py'), ('Plotter / analysis helpers', 'verification/entanglement/analysis.py')],
  'circuits, layouts and analysis values')

p('C20', 'Every logged value can be read back once, in order, and nothing else can',
  'With file logging enabled for a logger (by the configuration file or by hand), every call that logs values appends one timestamped record to the configured file, whatever the texts of the values, and the reader, of the configured or of chosen files, returns exactly the records logged, in order, restricted to the requested keys and inclusive time window, for every interleaving of calls on several loggers, enabling and disabling, repeated look-ups, restarts that continue the same file, failing calls and size-based rollover; rollover loses only the oldest records, and only once the configured number of files exists. With logging disabled nothing is written; logged values never appear on the console, and ordinary messages are printed once and never written to the log file.',
  ['histories', 'inputs'], 'all histories of enable/disable/log/read/configure with arbitrary keys and values',
  'Tests check one or two calls against a fresh file.',
  ['logging/ignis_logging.py'],
  [('IgnisLogger / IgnisLogging / IgnisLogReader', 'logging/ignis_logging.py')],
  'files and reader results')

p('C21', 'Gate-set tomography data and linear inversion follow the gate-set conventions',
  'For every gate set and SPAM circuits, each generated circuit is the labelled preparation circuit, the labelled gate and the labelled measurement circuit, in that order, on the measured qubit. Gate and SPAM matrices are the Pauli transfer matrices of the labelled gates and of their products in time order. From exact outcome probabilities of any gate set with informationally complete SPAM, linear inversion returns gate matrices, preparation and measurement that equal the true ones in the gauge of the prepared states, and so predict every gate sequence; the optimised fit returns trace-preserving gates, a positive state of trace one and a positive measurement that reproduce the measured probabilities, and the ideal gates when the data are noiseless. The default SPAM set is informationally complete for preparation and for measurement.',
  ['inputs', 'configurations'], 'all one-qubit gate sets, SPAM circuit tables and probabilities',
  'The existing fit tests do not run here; the others use the default gate set only.',
  ['verification/tomography/basis/gatesetbasis.py', 'verification/tomography/fitters/gateset_fitter.py', 'verification/tomography/basis/circuits.py'],
  [('GateSetBasis', 'verification/tomography/basis/gatesetbasis.py'), ('GatesetTomographyFitter', 'verification/tomography/fitters/gateset_fitter.py')],
  'circuits, SPAM matrices, linear inversion results')

p('C22', 'Pulse-calibration schedules and IQ fits sweep what they report',
  'Each pulse-calibration generator returns one named schedule per requested amplitude or drag parameter whose drive pulse on every listed qubit carries exactly that value, followed by one acquisition of each listed qubit into the memory slot of its index, and reports the same abscissa; no other qubit is driven. The IQ fitters average each qubit\'s own measured level per point over all shots of all added results (averaged or single-shot), project levels lying on a line onto that line without losing distance, and on data following the model recover its parameters (Rabi pi amplitude, DRAG vertex), from guesses derived of the data; single-shot spreads are the standard deviations of the shots. Updated u2 and u3 gates are the named rotations built of the given pi/2 pulse, all frames of the qubit move together, and no other instruction of the schedule map changes; device pulse parameters read back are those of the pulses played.',
  ['inputs', 'histories'], 'all qubit lists, amplitudes, channels and result histories',
  'Tests check one configuration.',
  ['characterization/calibrations/pulse_schedules.py', 'characterization/calibrations/fitters.py', 'characterization/fitters.py', 'characterization/calibrations/ibmq_utils.py'],
  [('rabi_schedules / drag_schedules', 'characterization/calibrations/pulse_schedules.py'), ('RabiFitter / DragFitter', 'characterization/calibrations/fitters.py')],
  'schedules, abscissae and fitter data')

p('C23', 'The CTMP mitigator is calibrated from and inverts its continuous-time noise',
  'The CTMP calibration derives every one- and two-qubit error-generator rate from the calibration counts of the matching qubits and direction (non-negative; for calibration data of one or two qubits with CTMP noise the rates of the noise are recovered), for any number of qubits including one. The generator matrix is the sum of rate times generator restricted to the listed qubits taken in ascending order, every column summing to zero; the assignment matrix is its exponential and is stochastic, and the mitigation matrix is its inverse. Expectation values sampled for any counts, measured qubits, classical bits and diagonal observable agree with the exact inverse-mapped mean within six standard errors, and the reported noise strength, overhead (rounded up), error bound and required shots are the documented functions of the rates.',
  ['inputs', 'configurations'], 'all calibration counts, generator sets and rates, counts, qubit subsets and diagonals up to three qubits',
  'Tests check that estimates on one noise model lie within 0.1 of the ideal value for a Z-type observable.',
  ['mitigation/expval/ctmp_fitter.py', 'mitigation/expval/ctmp_mitigator.py', 'mitigation/expval/ctmp_generator_set.py'],
  [('fit_ctmp_meas_mitigator', 'mitigation/expval/ctmp_fitter.py'), ('CTMPExpvalMeasMitigator', 'mitigation/expval/ctmp_mitigator.py'), ('Generator', 'mitigation/expval/ctmp_generator_set.py')],
  'fitted rates, assignment matrices and expectation values')

p('C24', 'Phase polynomials compute as polynomials modulo 8',
  'A phase polynomial (the diagonal part of a CNOT-dihedral element) is a multilinear polynomial of degree at most three with coefficients modulo 8. Reading and setting a term refer to exactly that set of variables; sums, products, multiples and products with a monomial are those of polynomials in which x*x = x and terms on more than three variables vanish; evaluating at a 0/1 vector gives the value modulo 8, and evaluating at polynomials substitutes them; set_pj gives the parity polynomial of the listed variables. Two polynomials compare equal exactly when all their coefficients agree, however they were made. Operations leave their operands unchanged and share nothing with them, and index lists that are out of range or not increasing, monomials of more than three variables and operands of different size are refused without effect. All of this holds for any number of variables, and the printed form lists exactly the non-zero terms.',
  ['inputs', 'histories'], 'all polynomials, index lists and evaluation points up to four variables, sampled ones up to ten; histories of operations',
  'Tests only use polynomials through a few two-qubit group elements.',
  ['verification/randomized_benchmarking/dihedral.py'],
  [('SpecialPolynomial', 'verification/randomized_benchmarking/dihedral.py')],
  'coefficients, values and comparisons of polynomials')

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
