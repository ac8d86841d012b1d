SPECIFICATION Spec
CONSTANTS
    What = "params"
    Names <- Names1
    Pick = 37
    Seed = 1
INVARIANTS SameMeaning Handed OwnNames Printed
CHECK_DEADLOCK FALSE
