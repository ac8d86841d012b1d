SPECIFICATION Spec
CONSTANTS
  Steps = {8, 16}
  Stops = {1, 7, 16, 37}
  Firsts <- FirstsHere
  Cuts <- CutsHere
  Mins <- MinsHere
  Maxs <- MaxsHere
  Easies = {1, 2, 4}
  Limits = {1, 3}
INVARIANTS TypeOK Bounded Within AtStop FirstOK Short Pushing
PROPERTIES Forward Doubles NoLoss Reason Ends
CHECK_DEADLOCK FALSE
