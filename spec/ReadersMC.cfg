SPECIFICATION Spec
CONSTANTS Alpha = {10, 13, 97}
 N = 3
INVARIANTS InFile Disjoint AllLines Ends
