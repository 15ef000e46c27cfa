SPECIFICATION Spec
CONSTANTS N = 4
 M = 6
INVARIANTS InOrderOnce Effects Lazy AtMostOneAhead Exhausted AgreesMore
PROPERTY Answered
