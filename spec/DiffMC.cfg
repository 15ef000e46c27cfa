SPECIFICATION Spec
CONSTANTS Ks = {1,2,3}
 Vs = {0,1}
 N = 3
INVARIANTS Correct Apply Same
PROPERTY Term
