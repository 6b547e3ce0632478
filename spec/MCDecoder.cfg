SPECIFICATION Spec
CONSTANTS D = 3
 T = 1
 MaxFaults = 2
INVARIANTS Restores Explains Agree GraphLaws Report
CHECK_DEADLOCK FALSE
