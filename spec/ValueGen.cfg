SPECIFICATION Spec
CONSTANTS MaxLength = 4 Alphabet <- Characters
INVARIANTS Reads Printed
CHECK_DEADLOCK FALSE
