INIT Init
NEXT Next
CONSTANTS
 N = 5
 Pops = 6
 Nodes = {1, 2, 3, 4, 5, 6}
INVARIANTS Order NoneLost Safe
