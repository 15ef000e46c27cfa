SPECIFICATION Spec
CONSTANTS NT = 2
 Alphabet <- A2
 MaxLen = 5
INVARIANT Agree
CONSTRAINT Bound
