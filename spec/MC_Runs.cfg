CONSTANTS MaxSteps = 2
SPECIFICATION Spec
INVARIANTS Fresh
PROPERTIES Steps
CHECK_DEADLOCK FALSE
