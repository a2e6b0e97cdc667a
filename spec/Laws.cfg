SPECIFICATION LSpec
INVARIANT LawsHold
CHECK_DEADLOCK FALSE
