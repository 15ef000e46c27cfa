SPECIFICATION Spec
CONSTANTS Alpha = {34, 44, 97}
 CellN = 2
 RowN = 1
 Sep = 44
 Eols <- MCEols
INVARIANTS RoundTrip ByName
PROPERTY Halts
