SPECIFICATION Spec
CONSTANTS NV = 3
INVARIANTS CatState Schedules ClosedForms Report
CHECK_DEADLOCK FALSE
