SPECIFICATION Spec
CONSTANTS Ks = {1,2,3}
 Vs = {4,5,6}
 MaxLen = 4
INVARIANTS FactoryOnce FirstUse Dense SortedSetRep
PROPERTY KeepsValue
