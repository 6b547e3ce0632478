SPECIFICATION Spec
CONSTANTS MaxOps = 5
INVARIANTS FractionsAreProbabilities OrderIrrelevant Complementary ModelsAgree Report
CHECK_DEADLOCK FALSE
