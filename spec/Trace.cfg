SPECIFICATION TraceSpec
INVARIANT Explain
CONSTANT Clauses = {"rob", "conv", "sound", "between", "tight"}
CHECK_DEADLOCK FALSE
