SPECIFICATION Spec
CONSTANTS MaxN = 3 Flips = {0, 1, 3}
INVARIANTS Inverted KeepsTotal GapSound Report
CHECK_DEADLOCK FALSE
