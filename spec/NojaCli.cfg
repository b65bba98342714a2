SPECIFICATION Spec
CONSTANT InFile = "%IN%"
CONSTANT OutFile = "%OUT%"
INVARIANT Sane
CHECK_DEADLOCK FALSE
