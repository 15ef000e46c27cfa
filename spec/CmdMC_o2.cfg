SPECIFICATION Spec
CONSTANTS Cfg = "o2"
 N = 4
 Words <- MCWords
INVARIANTS Agrees Untouched Distinct OnlyMissingRefused
PROPERTY Halts
