SPECIFICATION Spec
CONSTANTS Alpha = {34, 44, 97}
 CellN = 1
 RowN = 2
 Sep = 44
 Eols <- MCEols
INVARIANTS RoundTrip ByName
PROPERTY Halts
