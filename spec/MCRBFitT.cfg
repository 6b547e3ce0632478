SPECIFICATION Spec
CONSTANTS MaxAdds = 4
INVARIANTS Bounded Between OrderFree Stats SeedsLaw FormulaLaws Report
CHECK_DEADLOCK FALSE
