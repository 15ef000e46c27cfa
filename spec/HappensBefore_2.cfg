SPECIFICATION Spec
CONSTANTS NT = 2
 Alphabet <- A2
 MaxLen = 4
INVARIANT Agree
CONSTRAINT Bound
