INIT HInit
NEXT HNext
CONSTANTS HLen <- GLen
 HStart <- GStart
 HStep <- GStep
 HEnd <- GEnd
