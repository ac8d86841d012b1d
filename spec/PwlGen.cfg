SPECIFICATION Spec
CONSTANTS LastTime = 3 MaxPoints = 3
INVARIANTS Lawful Printed
CHECK_DEADLOCK FALSE
