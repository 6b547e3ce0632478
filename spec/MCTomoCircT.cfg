SPECIFICATION Spec
CONSTANTS MaxLen = 3
INVARIANTS SumsToOne Deterministic SicOverlap Report
CHECK_DEADLOCK FALSE
