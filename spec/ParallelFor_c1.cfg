SPECIFICATION Spec
CONSTANTS W = 2
 N = 3
 FailKinds = {0,1,2}
 Strat = 0
 Progress = 1
 Over = 0
 Fault = "none"
 Gen = FALSE
INVARIANTS Refines AtEnd
PROPERTY Returns
VIEW view
