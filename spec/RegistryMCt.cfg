SPECIFICATION RSpec
CONSTANTS OpSet <- Ops1
 MaxTrk = 3
 MaxScopes = 2
INVARIANTS Distinct Known ActiveKnown OneLineEach SilentNothing PrintPrints LastActivated GetStable ClearedForgets
PROPERTY Stable
