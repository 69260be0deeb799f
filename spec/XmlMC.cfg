INIT Init
NEXT Next
CONSTRAINT Small
INVARIANT Lookup
INVARIANT RoundTrip
CONSTANT Data <- DataSmall
CONSTANT Most = 3
