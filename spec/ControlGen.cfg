SPECIFICATION Spec
CONSTANTS
    Alphabet <- Commands
    MaxLines = 3
INVARIANTS OnlyNamed LastWins Printed
CHECK_DEADLOCK FALSE
