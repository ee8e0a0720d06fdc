SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = 4
  NForms = 100
  NTraces = 4
INVARIANTS Refine Laws WindowSig PointwiseOk Verdict Units TimeUnits
