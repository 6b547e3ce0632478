SPECIFICATION Spec
CONSTANTS MaxOps = 3
INVARIANTS TrapsAgree OneOutputPerAcceptedRun BoundLaws TargetsAlwaysAccepted Report
CHECK_DEADLOCK FALSE
