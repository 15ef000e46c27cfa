SPECIFICATION Spec
CONSTANTS NT = 3
 Alphabet <- A3
 MaxLen = 5
INVARIANT Agree
CONSTRAINT Bound
