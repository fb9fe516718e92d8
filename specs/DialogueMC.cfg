SPECIFICATION Spec
CONSTANTS
  Secrets = {1, 50, 77}
INVARIANTS Alternate Counted OnlyIfFound Settles NoDeadlock
PROPERTY Ends
