SPECIFICATION Spec
CONSTANTS NV = 4
INVARIANTS CatState Schedules ClosedForms Report
CHECK_DEADLOCK FALSE
