INIT Init
NEXT Next
CONSTANTS
  Depth = 2
  Kinds = {"cart", "cyl"}
  Alphabet = "store"
  Inits = "both"
INVARIANTS TypeOK Conserved OnlyItsCells Emit
CHECK_DEADLOCK FALSE
