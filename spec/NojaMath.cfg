SPECIFICATION Spec
CONSTANT InFile = "%IN%"
CONSTANT OutFile = "%OUT%"
CONSTANT Chars <- NoChars
CHECK_DEADLOCK FALSE
