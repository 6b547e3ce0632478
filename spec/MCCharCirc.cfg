SPECIFICATION Spec
CONSTANTS
 QLists <- QL
 NLists <- NL
 MaxEchos = 3
INVARIANTS DelayIsAbscissa EndsWhereExpected Turns Report
CHECK_DEADLOCK FALSE
