SPECIFICATION Spec
CONSTANTS MaxOps = 4
INVARIANTS OnlyKnown Bound AtMostHalf HeavyAboveRest IdealLaw PhiLaw Report
CHECK_DEADLOCK FALSE
