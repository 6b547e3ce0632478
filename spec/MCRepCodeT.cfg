SPECIFICATION Spec
CONSTANTS Ds = {2, 3, 4, 5}
 MaxOps = 4
INVARIANTS Laws Report
CHECK_DEADLOCK FALSE
