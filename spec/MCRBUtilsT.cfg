SPECIFICATION Spec
CONSTANTS MaxGates = 4
INVARIANTS Handshake Complete GpcBounded Formulas
CHECK_DEADLOCK FALSE
