SPECIFICATION Spec
CONSTANTS MaxN = 5 Flips = {0, 1, 2, 3}
INVARIANTS Inverted KeepsTotal GapSound Report
CHECK_DEADLOCK FALSE
