SPECIFICATION Spec
CONSTANTS NT = 3
 Alphabet <- A3
 MaxLen = 4
INVARIANT Agree
CONSTRAINT Bound
