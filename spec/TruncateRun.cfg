SPECIFICATION Spec
CONSTANTS MaxLen = 5
 MaxLim = 8
INVARIANTS AsSpecified ShortKept WithinLimit NothingAtZero WholeSentences
CHECK_DEADLOCK FALSE
