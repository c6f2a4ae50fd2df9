SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS
  C11_Sizes
  C11_Absolute
  C12_Anchored
  C12_Extent
