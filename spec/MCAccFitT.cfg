SPECIFICATION Spec
CONSTANTS MaxOps = 4
INVARIANTS TrapsAgree OneOutputPerAcceptedRun BoundLaws TargetsAlwaysAccepted Report
CHECK_DEADLOCK FALSE
