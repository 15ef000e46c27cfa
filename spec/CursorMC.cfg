SPECIFICATION Spec
CONSTANTS N = 4
INVARIANTS InRange IncDec AddSub DiffLaw OrderLaw
