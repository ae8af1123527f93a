SPECIFICATION Spec
CONSTANTS Sessions = 3
          Deep = 9
INVARIANTS OneOwner Fits Fresh Balanced Emit
