SPECIFICATION Spec
VIEW View
CONSTANTS
    Alphabet <- AllLines
    MaxLines = 3
    Kinds = {"X"}
INVARIANTS NoiseIsNothing LayoutIsNothing BlocksInOrder
CHECK_DEADLOCK FALSE
