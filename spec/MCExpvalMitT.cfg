SPECIFICATION Spec
CONSTANTS Flips = {0, 1, 2} Lists <- QLists
INVARIANTS MarginalLaw OrderLaw Stochastic Unbiased GammaLaw Report
CHECK_DEADLOCK FALSE
