SPECIFICATION Spec
CONSTANTS MaxSteps = 3
INVARIANTS OrderIrrelevant Stochastic FidelityBounds SubsetIdentity NeverBuiltEarly Report
CHECK_DEADLOCK FALSE
