SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 3, 4, 5, 6, 7}
          Interruptions = 2
INVARIANTS InOrder Accounted Outcome Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
