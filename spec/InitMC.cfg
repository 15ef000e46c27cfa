SPECIFICATION Spec
CONSTANTS NS = 3
 NT = 2
 K = {0, 1}
INVARIANTS Right NoCopyOfPointers
PROPERTY Halts
