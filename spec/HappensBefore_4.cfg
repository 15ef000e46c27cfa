SPECIFICATION Spec
CONSTANTS NT = 2
 Alphabet <- A4
 MaxLen = 5
INVARIANT Agree
CONSTRAINT Bound
