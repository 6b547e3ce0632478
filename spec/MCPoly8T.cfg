SPECIFICATION Spec
CONSTANTS N = 3
CONSTANTS MaxOps = 4
INVARIANTS AddLaw MulLaw MonoLaw SubstLaw Commutes ParityLaw InRange Report
CHECK_DEADLOCK FALSE
