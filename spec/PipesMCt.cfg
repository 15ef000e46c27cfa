SPECIFICATION Spec
CONSTANTS Src = {0,1}
 Stgs <- MCStgs
 MaxStages = 3
 FindMasks = {2,4}
INVARIANTS ResultIsEager WalkIsEager Laziness NoOverrun Idle StopsAtDecision
PROPERTY Terminates
