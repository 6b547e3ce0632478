SPECIFICATION Spec
CONSTANTS MaxOps = 3
 QLists <- QL
 Widths = {1, 8}
INVARIANTS DriveEndsAtAcquisition DragPairCancels Symmetric WeightedIsPooled LineSignal GateWords Report
CHECK_DEADLOCK FALSE
