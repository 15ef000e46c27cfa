SPECIFICATION Spec
CONSTANTS NS = 3
 MaxRes = 6
 Ty = "fin"
INVARIANTS AtMostOnce Exclusive NoLeak NeverWhileOwned OnlyObjectsOwn EmptyEnd DisarmedNeverRuns
