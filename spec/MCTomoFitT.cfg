SPECIFICATION Spec
CONSTANTS MaxCalls = 2 MaxWord = 3
INVARIANTS Tally OncePerLabel BitsKept Inverts Report
CHECK_DEADLOCK FALSE
