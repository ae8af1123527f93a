SPECIFICATION Spec
CONSTANTS Height = 2
          Generic = TRUE
INVARIANTS FormsFit NoHalf IsMessage ComesBack ReadByAny Emit
