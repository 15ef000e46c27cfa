SPECIFICATION Spec
CONSTANTS Src = {0,1,2}
 Stgs <- MCStgs
 MaxStages = 2
 FindMasks = {2,4}
INVARIANTS ResultIsEager WalkIsEager Laziness NoOverrun Idle StopsAtDecision
PROPERTY Terminates
