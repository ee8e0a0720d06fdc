SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NBps = 3
  NPairs = 12
INVARIANTS CombOk WindowOk UntilOk UntimedOk SimpOk
