INIT Init
NEXT Next
CONSTANTS Nodes = {1, 2, 3}
 MaxCap = 1
 MaxEdges = 3
INVARIANT CertificateIsMaximum
CHECK_DEADLOCK FALSE
