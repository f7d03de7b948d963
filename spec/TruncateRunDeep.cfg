SPECIFICATION Spec
CONSTANTS MaxLen = 7
 MaxLim = 10
INVARIANTS AsSpecified ShortKept WithinLimit NothingAtZero WholeSentences
CHECK_DEADLOCK FALSE
