SPECIFICATION Spec
CONSTANTS MaxOps = 4
 QLists <- QL
 Widths = {1, 2, 7, 16}
INVARIANTS DriveEndsAtAcquisition DragPairCancels Symmetric WeightedIsPooled LineSignal GateWords Report
CHECK_DEADLOCK FALSE
