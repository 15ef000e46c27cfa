INIT HInit
NEXT HNext
CONSTANTS HLen <- PLen
 HStart <- PStart
 HStep <- PStepLife
 HEnd <- PEndLife
