SPECIFICATION Spec
CONSTANTS W = 2
 N = 4
 FailKinds = {0,1}
 Strat = 1
 Progress = 0
 Over = 0
 Fault = "no_quit_check"
 Gen = FALSE
INVARIANTS Refines AtEnd
PROPERTY Returns
VIEW view
