SPECIFICATION Spec
CONSTANTS MaxOps = 4
INVARIANTS ChainIsSuffix NothingLostUntilFull Bounded ReadAll Windows Report
CHECK_DEADLOCK FALSE
