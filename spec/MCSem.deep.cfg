SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = 4
  NForms = 0
  NTraces = 3
INVARIANTS Refine Laws WindowSig PointwiseOk Verdict Units TimeUnits
