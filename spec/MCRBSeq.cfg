SPECIFICATION Spec
CONSTANTS MaxLen = 2
 Pats <- PatsQ
 Mults <- MultsQ
INVARIANTS Ground Counts PrefixLaw Interleaves Sensitive Report
CHECK_DEADLOCK FALSE
