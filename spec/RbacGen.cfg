CONSTANT MaxMarkers = 0
INIT GInit
NEXT GNext
CHECK_DEADLOCK FALSE
