SPECIFICATION GSpec
CONSTANT InFile = "%IN%"
CONSTANT OutFile = "%OUT%"
CONSTANT Chars <- RunChars
VIEW GView
INVARIANT Bounded
INVARIANT InHeap
INVARIANT Packed
INVARIANT LibClosed
CHECK_DEADLOCK FALSE
