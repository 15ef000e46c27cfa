SPECIFICATION Spec
CONSTANTS W = 2
 Batches <- B202
 Nest <- NX
 Fault = "none"
 Gen = FALSE
INVARIANTS TypeOK Refines Stuck
PROPERTY Returns
VIEW view
