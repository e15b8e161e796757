SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Strict <- Yes
