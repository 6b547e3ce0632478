SPECIFICATION Spec
CONSTANTS MaxSpam = 2
 Sizes = {2, 3}
INVARIANTS Inverts Predicts Physical Composes Counted Report
CHECK_DEADLOCK FALSE
