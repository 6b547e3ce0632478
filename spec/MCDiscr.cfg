SPECIFICATION Spec
CONSTANTS MaxOps = 2
INVARIANTS FittedIsPrefix LabelsKnown OwnPointNearest ValuesFaithful Report
PROPERTIES OnlyGrows
CHECK_DEADLOCK FALSE
