INIT HInit
NEXT HNext
CONSTANTS HLen <- FLen
 HStart <- FStart
 HStep <- FStep
 HEnd <- FEnd
