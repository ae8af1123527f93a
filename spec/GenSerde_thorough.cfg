SPECIFICATION Spec
CONSTANTS Height = 3
          Generic = TRUE
INVARIANTS FormsFit NoHalf IsMessage ComesBack ReadByAny Emit
