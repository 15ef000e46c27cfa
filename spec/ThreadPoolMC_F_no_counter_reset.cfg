SPECIFICATION Spec
CONSTANTS W = 2
 Batches <- B21
 Nest <- NX
 Fault = "no_counter_reset"
 Gen = FALSE
INVARIANTS TypeOK Refines Stuck
PROPERTY Returns
VIEW view
