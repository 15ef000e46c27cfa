INIT HInit
NEXT HNext
CONSTANTS HLen <- GLen
 HStart <- GStart
 HStep <- GStepVal
 HEnd <- GEnd
