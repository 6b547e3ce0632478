SPECIFICATION Spec
CONSTANTS Depth = 1
 Kinds = {"cx", "cz"}
INVARIANTS PadIsShiftedOriginal TrapsReturnToZero TrapStringReveals Report
CHECK_DEADLOCK FALSE
