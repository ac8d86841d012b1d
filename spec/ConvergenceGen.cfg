SPECIFICATION Spec
CONSTANTS MaxNodes = 2 MaxCurrents = 2
INVARIANTS Sound Printed
CHECK_DEADLOCK FALSE
