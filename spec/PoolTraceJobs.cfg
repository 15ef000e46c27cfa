INIT HInit
NEXT HNext
CONSTANTS HLen <- PLen
 HStart <- PStart
 HStep <- PStepJobs
 HEnd <- PEndJobs
