INIT Init
NEXT Next
CONSTANTS
  Depth = 3
  Kinds = {"cart", "cyl"}
  Alphabet = "outliers"
  Inits = "both"
INVARIANTS TypeOK Conserved OnlyItsCells Emit
CHECK_DEADLOCK FALSE
