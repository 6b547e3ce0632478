SPECIFICATION Spec
CONSTANTS MaxOps = 5
INVARIANTS ChainIsSuffix NothingLostUntilFull Bounded ReadAll Windows Report
CHECK_DEADLOCK FALSE
