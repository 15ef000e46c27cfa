SPECIFICATION Spec
CONSTANTS Alpha = {0, 10, 13, 32, 97}
 N = 3
INVARIANTS InBounds Shrinks SubstrLaw TrimLaw FindLaw OrderLaw Partition SkipLaw
