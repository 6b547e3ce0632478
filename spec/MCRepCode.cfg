SPECIFICATION Spec
CONSTANTS Ds = {2, 3}
 MaxOps = 3
INVARIANTS Laws Report
CHECK_DEADLOCK FALSE
