"""Registry: which models, driver and trace specification decide a property."""


def model(module, quick=None, thorough=None, **kw):
    q = quick or module + '.cfg'
    return dict(module=module, cfg={'quick': q, 'thorough': thorough or q}, **kw)


PROPS = {
    'C01': dict(driver='readoutcal', trace='TReadoutCal',
                models=[model('MCReadoutCal', thorough='MCReadoutCalT.cfg')],
                assumptions=['circuits are observed as gate lists (names, matrices, '
                             'qubits); registers up to 9 qubits']),
    'C02': dict(driver='calmatrix', trace='TCalMatrix',
                models=[model('MCCalMatrix', thorough='MCCalMatrixT.cfg')],
                assumptions=['results are synthetic Result objects; at most 3 calibrated '
                             'qubits; circuit names unique within one result']),
    'C03': dict(driver='readoutfilter', trace='TReadoutFilter',
                models=[model('MCReadoutFilter', thorough='MCReadoutFilterT.cfg')],
                assumptions=['matrices column-stochastic with entries multiples of 1/1000, '
                             'diagonally dominant; at most 3 qubits, 180 shots; '
                             'least-squares optimality within 3e-4 of the squared '
                             'distance of normalised counts']),
    'C04': dict(driver='expvalmit', trace='TExpvalMit',
                models=[model('MCExpvalMit', thorough='MCExpvalMitT.cfg')],
                assumptions=['at most 4 qubits; assignment matrices diagonally dominant; '
                             'classical bits listed in any order']),
    'C05': dict(driver='tomocirc', trace='TTomoCirc',
                models=[model('MCTomoCirc', thorough='MCTomoCircT.cfg')],
                assumptions=['user circuits are Clifford+T words on at most 4 qubits; '
                             'SIC states compared to 4e-4']),
    'C06': dict(driver='tomofit', trace='TTomoFit',
                models=[model('MCTomoFit', thorough='MCTomoFitT.cfg')],
                assumptions=['exact data = probabilities of Clifford+T mixtures rounded to '
                             '10^6 shots, one and two qubits; convex-solver fits compared to '
                             '1e-2; marginal counts list the selected bits in ascending order']),
    'C07': dict(driver='rbseq', trace='TRBSeq',
                models=[model('MCRBSeq', thorough='MCRBSeqT.cfg')],
                assumptions=['groups of at most three qubits, lengths up to 5, multipliers up '
                             'to 3; elements are delimited by the barriers the generator '
                             'places after each element']),
    'C08': dict(driver='dihedral', trace='TDihedral',
                models=[model('MCDihedral'), model('MCDihedral', quick='MCDihedral1.cfg')],
                assumptions=['exhaustive over the 16 one-qubit and (thorough) all 6144 two-qubit '
                             'elements; histories of 10 operations on up to 5 qubits']),
    'C09': dict(driver='rbfit', trace='TRBFit',
                models=[model('MCRBFit', thorough='MCRBFitT.cfg')],
                assumptions=['up to 3 patterns of at most 2 qubits, up to 3 seeds; decay '
                             'recovery judged to 1e-3 on data exact to 1e-6; derived error '
                             'bars are judged from the reported one of the decay']),
    'C10': dict(driver='rbutils', trace='TRBUtils',
                models=[model('MCRBUtils', thorough='MCRBUtilsT.cfg')],
                assumptions=['conversion formulas judged to 5e-5 for errors up to 0.2; up to 4 '
                             'qubits']),
    'C11': dict(driver='qvol', trace='TQVol',
                models=[model('MCQVol', thorough='MCQVolT.cfg')],
                assumptions=['lists of distinct lengths up to 4 on up to 6 device qubits; a refit '
                             'is requested once every started trial has data for every depth; '
                             'confidence judged to 3e-4']),
    'C12': dict(driver='repcode', trace='TRepCode',
                models=[model('MCRepCode', thorough='MCRepCodeT.cfg')],
                assumptions=['distances 2 to 7, up to 5 rounds; readout is the last operation; '
                             'parity changes are judged for histories whose link qubits are '
                             'reset between rounds']),
    'C13': dict(driver='decoder', trace='TDecoder',
                models=[model('MCDecoder', thorough='MCDecoderT.cfg')],
                assumptions=['distances 2 to 7, up to 3 rounds; optimality of the correction judged '
                             'for up to five detection events; estimated weights judged when every '
                             'ratio is defined']),
    'C14': dict(driver='accred', trace='TAccred',
                models=[model('MCAccred', thorough='MCAccredT.cfg')],
                assumptions=['targets of up to three qubits (four with a device map); probabilities to '
                             '1.5e-3; batches generated in one process with seeded generators']),
    'C15': dict(driver='accfit', trace='TAccFit',
                models=[model('MCAccFit', thorough='MCAccFitT.cfg')],
                assumptions=['three fitters alive, 3 to 10 traps, up to 15 operations; thresholds within '
                             '3e-6 of the acceptance rate are judged only where exactly representable']),
    'C16': dict(driver='charcirc', trace='TCharCirc',
                models=[model('MCCharCirc', thorough='MCCharCircT.cfg')],
                assumptions=['sequences compared gate by gate up to global phase (1e-4); with an artificial '
                             'angle error only the sequence of non-diagonal gates is judged']),
    'C17': dict(driver='charfit', trace='TCharFit',
                models=[model('MCCharFit', thorough='MCCharFitT.cfg')],
                assumptions=['up to three qubits; exact recovery judged to 0.5% from a start point within 7% '
                             'of the model (2% in frequency)']),
    'C18': dict(driver='discr', trace='TDiscr',
                models=[model('MCDiscr', thorough='MCDiscrT.cfg')],
                assumptions=['well separated calibration clouds; experiment names distinct within a result; '
                             'every level-1 experiment announces meas_return']),
    'C19': dict(driver='ghz', trace='TGhz',
                models=[model('MCGhz', quick='MCGhz3.cfg'), model('MCGhz', quick='MCGhz4.cfg', thorough='MCGhz5.cfg')],
                assumptions=['connected coupling graphs on up to 6 device qubits (10 for the step schedules), '
                             'all of them up to 4 (thorough: 5); probabilities judged to 2e-4']),
    'C20': dict(driver='logbook', trace='TLogbook',
                models=[model('MCLogbook', thorough='MCLogbookT.cfg')],
                assumptions=['one process at a time writes the log; keys are identifiers; texts contain no '
                             'carriage returns and nothing that looks like a further key and value']),
    'C21': dict(driver='gst', trace='TGst',
                models=[model('MCGst', thorough='MCGstT.cfg')],
                assumptions=['one-qubit gate sets of up to 5 gates and four SPAM words of up to 3 gates with a '
                             'Gram matrix of condition number below 60; data of 10^6 shots; noise up to 10%; '
                             'fit judged to 4e-2 in the probabilities (2e-3 without noise)']),
    'C22': dict(driver='pulsecal', trace='TPulseCal',
                models=[model('MCPulseCal', thorough='MCPulseCalT.cfg')],
                assumptions=['Gaussian widths up to 20 samples and the measurement writes each qubit to the slot '
                             'of its index; signals judged for data on a line in the IQ plane; fits start '
                             'within 3% of the frequency']),
    'C23': dict(driver='ctmp', trace='TCtmp',
                models=[model('MCCtmp', thorough='MCCtmpT.cfg')],
                assumptions=['up to three qubits (thorough: four for calibration), total rates below 0.5; '
                             'sampled values judged to six standard errors; counts marginalised to '
                             'ascending classical bits']),
    'C24': dict(driver='poly8', trace='TPoly8',
                models=[model('MCPoly8', thorough='MCPoly8T.cfg')],
                assumptions=['up to four variables; index lists of at most three variables except for '
                             'monomials']),
}

NOT_APPLICABLE = {}
