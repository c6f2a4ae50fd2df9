SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS
  C01_Read
  C04_Text
  C04_Items
