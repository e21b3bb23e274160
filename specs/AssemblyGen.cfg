SPECIFICATION Spec
CONSTANTS MaxNodes = 4 MaxEdges = 6
 NodeTypes = {"Innode", "Source", "Sink", "ConstraintSink", "Pressureboundarynode", "PQnode", "PVnode", "Vphinode", "StochasticPQnode", "ExternalPowerplant"}
 EdgeTypes = {"Pipe", "Shortpipe", "Compressorstation", "Controlvalve", "Gaspowerconnection", "Transmissionline"}
 Pick <- PickOne
INVARIANTS Layout NoOverlap Square Dump
CHECK_DEADLOCK FALSE
