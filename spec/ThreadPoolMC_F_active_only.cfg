SPECIFICATION Spec
CONSTANTS W = 2
 Batches <- B21
 Nest <- NX
 Fault = "active_only"
 Gen = FALSE
INVARIANTS TypeOK Refines Stuck
PROPERTY Returns
VIEW view
