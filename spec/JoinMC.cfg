SPECIFICATION JSpec
CONSTANTS Keys = {1, 2, 3}
 MaxLen = 4
 Kinds = {"inner", "left", "full"}
INVARIANTS JTypeOK JCorrect JProgress
PROPERTY JTerm
