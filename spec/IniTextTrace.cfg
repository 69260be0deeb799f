INIT TInit
NEXT TNext
CONSTANT Headerless <- NoHeader
