SPECIFICATION Spec
CONSTANTS Alpha = {10, 13, 32, 97}
 N = 4
INVARIANTS InBounds Shrinks SubstrLaw TrimLaw FindLaw OrderLaw Partition SkipLaw
