SPECIFICATION Spec
CONSTANTS MaxNodes = 2 MaxEdges = 2
 NodeTypes = {"Innode", "Source", "Pressureboundarynode", "ConstraintSink", "PQnode", "ExternalPowerplant"}
 EdgeTypes = {"Pipe", "Shortpipe", "Compressorstation", "Gaspowerconnection", "Transmissionline"}
INVARIANTS Layout NoOverlap Square OwnSize
CHECK_DEADLOCK FALSE
