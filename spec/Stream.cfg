SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  MaxL = 4
  MaxRoom = 3
INVARIANTS TypeOK Sound Complete NotStarved Realisable
PROPERTY Fair
