SPECIFICATION Spec
CONSTANTS D = 5
 T = 2
 MaxFaults = 2
INVARIANTS Restores Explains Agree GraphLaws
CHECK_DEADLOCK FALSE
