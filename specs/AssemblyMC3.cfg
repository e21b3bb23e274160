SPECIFICATION Spec
CONSTANTS MaxNodes = 3 MaxEdges = 2
 NodeTypes = {"Innode", "Source", "Pressureboundarynode", "PQnode", "ExternalPowerplant"}
 EdgeTypes = {"Pipe", "Shortpipe", "Gaspowerconnection", "Transmissionline"}
INVARIANTS Layout NoOverlap Square OwnSize
CHECK_DEADLOCK FALSE
