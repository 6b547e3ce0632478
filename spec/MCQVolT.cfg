SPECIFICATION Spec
CONSTANTS MaxOps = 6
INVARIANTS OnlyKnown Bound AtMostHalf HeavyAboveRest IdealLaw PhiLaw
CHECK_DEADLOCK FALSE
