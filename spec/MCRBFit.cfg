SPECIFICATION Spec
CONSTANTS MaxAdds = 3
INVARIANTS Bounded Between OrderFree Stats SeedsLaw FormulaLaws Report
CHECK_DEADLOCK FALSE
