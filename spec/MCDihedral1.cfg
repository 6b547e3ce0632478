SPECIFICATION Spec
CONSTANTS N = 1
VIEW View
INVARIANTS GroupLaws StepLaws Report
CHECK_DEADLOCK FALSE
