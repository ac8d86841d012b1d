------------------------------- MODULE Verdicts -------------------------------
(* What the small conformance modules have in common: cases are read from a  *)
(* file, one JSON object a line, and each one gets a verdict.                *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

Report(c, bad, note) ==
    PrintT("VERDICT " \o ToJson([id |-> c.id, bad |-> bad, note |-> note, rows |-> 0]))
===============================================================================
