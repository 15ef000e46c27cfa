INIT HInit
NEXT HNext
CONSTANTS HLen <- TLen
 HStart <- TStart
 HStep <- TStep
 HEnd <- TEnd
