INIT Init
NEXT Next
CONSTANTS
  Kinds = {"cart"}
  Ext = 3
  MaxN = 4
INVARIANTS CellExists ExactlyOneBox CentreInCell RingOK SectorTurn SectorHalf SectorRefines Emit
CHECK_DEADLOCK FALSE
