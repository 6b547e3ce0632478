SPECIFICATION Spec
CONSTANTS MaxGates = 2
INVARIANTS Handshake Complete GpcBounded Formulas Report
CHECK_DEADLOCK FALSE
