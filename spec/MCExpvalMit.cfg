SPECIFICATION Spec
CONSTANTS Flips = {0, 1} Lists <- QLists
INVARIANTS MarginalLaw OrderLaw Stochastic Unbiased GammaLaw Report
CHECK_DEADLOCK FALSE
