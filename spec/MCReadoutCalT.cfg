SPECIFICATION Spec
CONSTANTS MaxQubit = 3 MaxTotal = 4
INVARIANTS LabelsUnique Balanced Realisable Discriminates Report
CHECK_DEADLOCK FALSE
