SPECIFICATION Spec
CONSTANTS Sessions = 2
          Deep = 9
INVARIANTS OneOwner Fits Fresh Balanced Emit
