SPECIFICATION Spec
CONSTANTS MaxQubit = 2 MaxTotal = 3
INVARIANTS LabelsUnique Balanced Realisable Discriminates Report
CHECK_DEADLOCK FALSE
