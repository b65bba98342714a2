SPECIFICATION TSpec
CONSTANT InFile = "%IN%"
CONSTANT OutFile = "%OUT%"
CONSTANT Chars <- RunChars
VIEW TView
CHECK_DEADLOCK FALSE
