SPECIFICATION Spec
CONSTANTS W = 2
 N = 2
 FailKinds = {0,1}
 Strat = 0
 Progress = 0
 Over = 0
 Fault = "no_join"
 Gen = FALSE
INVARIANTS Refines AtEnd
PROPERTY Returns
VIEW view
