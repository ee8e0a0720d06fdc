SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  NBps = 3
  NPairs = 60
INVARIANTS CombOk WindowOk UntilOk UntimedOk SimpOk
