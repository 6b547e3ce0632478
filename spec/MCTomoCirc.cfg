SPECIFICATION Spec
CONSTANTS MaxLen = 2
INVARIANTS SumsToOne Deterministic SicOverlap Report
CHECK_DEADLOCK FALSE
