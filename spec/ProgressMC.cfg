SPECIFICATION Spec
CONSTANTS Values <- Vals1
 SetterSet <- Set1
 MaxIn = 110
INVARIANTS InBounds Quantised Matches Notified CbExactly Complete MonoOnly
