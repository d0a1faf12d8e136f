SPECIFICATION Spec
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
