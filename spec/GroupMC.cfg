SPECIFICATION Spec
CONSTANTS Ks = {1,2,3}
 N = 6
INVARIANTS Correct Cover NonEmpty Uniform Maximal SortedOnce
PROPERTY Term
