SPECIFICATION Spec
CONSTANTS W = 2
 Batches <- B21
 Nest <- NX
 Fault = "no_nested_check"
 Gen = FALSE
INVARIANTS TypeOK Refines Stuck
PROPERTY Returns
VIEW view
