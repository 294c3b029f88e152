CONSTANTS
  MaxText = 7
  MaxAuthors = 8
  MaxName = 5
  MaxLines = 7
SPECIFICATION Spec
INVARIANTS NoneLeft Parts EveryWord Rotated InTurn
