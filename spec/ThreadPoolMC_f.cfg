SPECIFICATION Spec
CONSTANTS W = 3
 Batches <- B211
 Nest <- NX
 Fault = "none"
 Gen = FALSE
INVARIANTS TypeOK Refines Stuck
PROPERTY Returns
VIEW view
