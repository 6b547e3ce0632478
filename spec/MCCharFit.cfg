SPECIFICATION Spec
CONSTANTS MaxOps = 3
INVARIANTS FractionsAreProbabilities OrderIrrelevant Complementary ModelsAgree Report
CHECK_DEADLOCK FALSE
