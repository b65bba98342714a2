SPECIFICATION Spec
CONSTANT InFile = "%IN%"
CONSTANT OutFile = "%OUT%"
CONSTANT Chars <- RunChars
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT NetFine
