SPECIFICATION Spec
CONSTANTS N = 4
 CheckSeek = TRUE
 CheckRead = TRUE
 Loop = TRUE
INVARIANT ExactOrLoud
PROPERTY Ends
