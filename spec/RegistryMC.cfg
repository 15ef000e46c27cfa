SPECIFICATION RSpec
CONSTANTS OpSet <- Ops1
 MaxTrk = 2
 MaxScopes = 1
INVARIANTS Distinct Known ActiveKnown OneLineEach SilentNothing PrintPrints LastActivated GetStable ClearedForgets
PROPERTY Stable
