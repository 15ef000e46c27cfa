SPECIFICATION Spec
CONSTANTS NT = 2
 Alphabet <- A4
 MaxLen = 6
INVARIANT Agree
CONSTRAINT Bound
