SPECIFICATION Spec
CONSTANTS
  Steps = {256}
  Stops = {400, 768}
  Starts = {0, 280}
  Firsts <- FirstsHere
  Cuts <- CutsHere
  Mins <- MinsHere
  Maxs <- MaxsHere
  Easies = {1, 2, 6}
  Limits = {1, 2, 3}
  Spans = {80, 200}
  Levels = {0, 3, 5, 9}
  MaxLevels = 3
INVARIANTS Increases Within Bounded FirstOK AtStop Reason Completes Printed
CHECK_DEADLOCK FALSE
