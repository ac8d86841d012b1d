SPECIFICATION Spec
CONSTANTS Decks = {0, 1, 2, 3, 4} MaxRuns = 3 Forgets = TRUE
INVARIANTS Independent Printed
CHECK_DEADLOCK FALSE
