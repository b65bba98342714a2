SPECIFICATION OSpec
CONSTANT InFile = "%IN%"
CONSTANT OutFile = "%OUT%"
CONSTANT Chars <- RunChars
VIEW OView
INVARIANT Bounded
INVARIANT InHeap
PROPERTY Stable
CHECK_DEADLOCK FALSE
