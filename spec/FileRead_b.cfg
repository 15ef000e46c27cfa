SPECIFICATION Spec
CONSTANTS N = 4
 CheckSeek = TRUE
 CheckRead = TRUE
 Loop = FALSE
INVARIANT ExactOrLoud
PROPERTY Ends
