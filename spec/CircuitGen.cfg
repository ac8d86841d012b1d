SPECIFICATION Spec
CONSTANTS
    Most = 2
    Part = 4
    Seed = 1
INVARIANTS Lawful AnyOrder AnyNumbers Printed
CHECK_DEADLOCK FALSE
