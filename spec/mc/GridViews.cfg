INIT Init
NEXT Next
CONSTANTS
  Depth = 2
  Kinds = {"cart", "cyl"}
  Alphabet = "views"
  Inits = "both"
INVARIANTS TypeOK Conserved OnlyItsCells Views Emit
CHECK_DEADLOCK FALSE
