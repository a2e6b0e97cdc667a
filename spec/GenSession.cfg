SPECIFICATION Spec
VIEW View
INVARIANT StoreKeyed
INVARIANT SplitSame
PROPERTY FrameProp
CHECK_DEADLOCK FALSE
