SPECIFICATION Spec
CONSTANTS N = 4
 CheckSeek = TRUE
 CheckRead = FALSE
 Loop = TRUE
INVARIANT ExactOrLoud
