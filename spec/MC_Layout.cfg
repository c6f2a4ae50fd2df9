SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT LayoutGood
INVARIANT RefusedRightly
