SPECIFICATION Spec
CONSTANTS Ks = {1,2,3}
 N = 5
INVARIANTS Correct Once
PROPERTY Term
