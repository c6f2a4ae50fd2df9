SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip Blank OneKind WideAgrees
