SPECIFICATION Spec
CONSTANTS Depth = 2
 Kinds = {"cx", "cz"}
INVARIANTS PadIsShiftedOriginal TrapsReturnToZero TrapStringReveals Report
CHECK_DEADLOCK FALSE
