SPECIFICATION Spec
CONSTANTS
    Names <- Names1
    Kinds = {"R", "V"}
    MaxCalls = 3
INVARIANTS Distinct Kept Grounded Dense InRange Printed
CHECK_DEADLOCK FALSE
