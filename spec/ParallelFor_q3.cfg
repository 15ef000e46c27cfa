SPECIFICATION Spec
CONSTANTS W = 3
 N = 4
 FailKinds = {0,1}
 Strat = 1
 Progress = 1
 Over = 1
 Fault = "none"
 Gen = FALSE
INVARIANTS Refines AtEnd
PROPERTY Returns
VIEW view
