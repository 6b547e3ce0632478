SPECIFICATION Spec
CONSTANTS NV = 5
INVARIANTS CatState Schedules  Report
CHECK_DEADLOCK FALSE
