SPECIFICATION Spec
CONSTANTS
  MaxL = 5
  MaxAns = 7
INVARIANTS SuccessIsWhole FailureIsRefusal
PROPERTY Silent
