SPECIFICATION Spec
CONSTANTS W = 2
 N = 3
 FailKinds = {0,1}
 Strat = 1
 Progress = 0
 Over = 1
 Fault = "shared_local"
 Gen = FALSE
INVARIANTS Refines AtEnd
PROPERTY Returns
VIEW view
