SPECIFICATION Spec
INVARIANTS BoxFits Reads Shows NothingNothing
CONSTANTS MaxItems = 2 Coords <- DCoords
CHECK_DEADLOCK FALSE
