SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Pats <- PatsT
 Mults <- MultsQ
INVARIANTS Ground Counts PrefixLaw Interleaves Sensitive Report
CHECK_DEADLOCK FALSE
