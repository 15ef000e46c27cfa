SPECIFICATION Spec
CONSTANTS W = 3
 N = 3
 FailKinds = {0,1}
 Strat = 1
 Progress = 0
 Over = 0
 Fault = "none"
 Gen = FALSE
INVARIANTS Refines AtEnd
PROPERTY Returns
VIEW view
