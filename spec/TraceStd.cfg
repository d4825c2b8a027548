CONSTANTS LateClauses = TRUE PerSpace = TRUE FunctionLabels = TRUE
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW View
