INIT HInit
NEXT HNext
CONSTANTS HLen <- TLen
 HStart <- SStart
 HStep <- SStep
 HEnd <- SEnd
