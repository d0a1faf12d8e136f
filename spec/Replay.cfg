SPECIFICATION Spec
VIEW View
INVARIANT PropertyHolds
CHECK_DEADLOCK FALSE
