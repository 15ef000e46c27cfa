INIT HInit
NEXT HNext
CONSTANTS HLen <- GLen
 HStart <- GStart
 HStep <- GStepSet
 HEnd <- GEnd
