SPECIFICATION Spec
CONSTANTS Depth = 6
          Height = 4
CONSTRAINT Bounded
INVARIANT Emit
