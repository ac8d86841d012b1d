SPECIFICATION Spec
CONSTANTS
    Alphabet <- Mixed
    MaxLines = 4
    Ahead <- Ahead1
    Behind <- Behind1
INVARIANTS SameAsSpliced Printed
CHECK_DEADLOCK FALSE
