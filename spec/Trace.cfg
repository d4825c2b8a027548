CONSTANTS LateClauses = FALSE PerSpace = FALSE FunctionLabels = FALSE
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
VIEW View
