SPECIFICATION Spec
CONSTANTS N = 2
VIEW View
INVARIANTS GroupLaws StepLaws Report
CHECK_DEADLOCK FALSE
