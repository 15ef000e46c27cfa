SPECIFICATION Spec
CONSTANTS Alpha = {43, 45, 46, 48, 49, 57, 97}
 N = 4
INVARIANTS Right Longest Canonical Tail1 Bools IntsAreDecimals
PROPERTY Halts
