SPECIFICATION Spec
INVARIANT Complete Traceless Selected
CHECK_DEADLOCK FALSE
