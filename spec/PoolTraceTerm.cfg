INIT HInit
NEXT HNext
CONSTANTS HLen <- PLen
 HStart <- PStart
 HStep <- PStepTerm
 HEnd <- PEndTerm
