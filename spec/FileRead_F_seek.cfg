SPECIFICATION Spec
CONSTANTS N = 4
 CheckSeek = FALSE
 CheckRead = TRUE
 Loop = TRUE
INVARIANT ExactOrLoud
