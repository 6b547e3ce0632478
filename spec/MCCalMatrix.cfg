SPECIFICATION Spec
CONSTANTS MaxSteps = 2
INVARIANTS OrderIrrelevant Stochastic FidelityBounds SubsetIdentity NeverBuiltEarly Report
CHECK_DEADLOCK FALSE
