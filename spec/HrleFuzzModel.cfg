SPECIFICATION Spec
CONSTANTS
  Sections = 4
  Largest = 16
  Lengths <- ThreeLengths
INVARIANTS ValidState Ordered Complete
PROPERTY Finishes
CHECK_DEADLOCK FALSE
