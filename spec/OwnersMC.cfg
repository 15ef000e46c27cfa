SPECIFICATION Spec
CONSTANTS NS = 3
 MaxRes = 4
 Ty = "fin"
INVARIANTS AtMostOnce Exclusive NoLeak NeverWhileOwned OnlyObjectsOwn EmptyEnd DisarmedNeverRuns
