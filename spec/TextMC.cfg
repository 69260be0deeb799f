INIT Init
NEXT Next
CONSTANTS
 Points = {1, 127, 128, 2047, 2048, 55295, 57344, 65535, 65536, 1114111}
 Bytes = {1, 32, 65, 127, 128, 159, 160, 191, 194, 223, 224, 237, 240, 244, 255}
 Max = 4
INVARIANTS RoundTrip PrefixOnly Base Pieces Trim2
CHECK_DEADLOCK FALSE
