SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = 30
 NOps = 6
INVARIANT FlushedIsInFile
INVARIANT WellFormed
