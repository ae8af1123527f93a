SPECIFICATION Spec
CONSTANTS Depth = 4
          Height = 3
CONSTRAINT Bounded
INVARIANT Emit
