SPECIFICATION Spec
CONSTANTS
 QLists <- QL
 NLists <- NL
 MaxEchos = 6
INVARIANTS DelayIsAbscissa EndsWhereExpected Turns Report
CHECK_DEADLOCK FALSE
