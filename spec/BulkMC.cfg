SPECIFICATION Spec
CONSTANTS Vs = {0,1,2,4}
 N = 5
 X = 1
INVARIANTS Agree
