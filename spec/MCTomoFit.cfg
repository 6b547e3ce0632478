SPECIFICATION Spec
CONSTANTS MaxCalls = 2 MaxWord = 2
INVARIANTS Tally OncePerLabel BitsKept Inverts Report
CHECK_DEADLOCK FALSE
