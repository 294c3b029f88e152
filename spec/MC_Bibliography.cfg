CONSTANTS
  MaxText = 5
  MaxAuthors = 6
  MaxName = 4
  MaxLines = 5
SPECIFICATION Spec
INVARIANTS NoneLeft Parts EveryWord Rotated InTurn
