SPECIFICATION Spec
CONSTANTS W = 3
 Batches <- B2
 Nest <- N0
 Fault = "none"
 Gen = FALSE
INVARIANTS TypeOK Refines Stuck
PROPERTY Returns
VIEW view
