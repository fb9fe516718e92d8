SPECIFICATION Spec
INVARIANTS BoxFits Reads Shows NothingNothing
CONSTANTS MaxItems = 1 Coords <- QCoords
CHECK_DEADLOCK FALSE
