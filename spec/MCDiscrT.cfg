SPECIFICATION Spec
CONSTANTS MaxOps = 3
INVARIANTS FittedIsPrefix LabelsKnown OwnPointNearest ValuesFaithful Report
PROPERTIES OnlyGrows
CHECK_DEADLOCK FALSE
