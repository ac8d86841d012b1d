------------------------------ MODULE ControlGen ------------------------------
(* All short control blocks.  Every command changes only what it names, and   *)
(* the last one to name a setting wins (C16).                                 *)
EXTENDS Deck, Json
CONSTANTS Alphabet, MaxLines

Commands == << "op", "tran 1m 5m", "tran 2 9 3", "tran 1e-6 1e-3 1u", "tran 1 4 -1.5", "tran 0 -2",
    "option ABSTOL = 1e-3", "option RELTOL = 0.01", "option RMAX = 2", "option RELTOL = 5u",
    "option", "option VNTOL = 1", "option abstol = 1", "option RMAX = 10k", "option RMAX = 0.1", "option ABSTOL = -1", "print v(1)", "dc V1 0 1 0.1", "plot tran",
    ".endc", ".control" >>
\* the same in other guises
Guises == << "  op  ", "op ; tran 1 2", "* tran 1 2", "; op", "tran  10ms\t50ms", "tran 1n 2n 0 ; x", "option\tRELTOL  =  1m;",
             "option RMAX = 0.5", "OP", "Tran 1 2", "tran", "tran 1", "tran 1 x", "option RELTOL=1", "option RELTOL =", "option RELTOL = x",
             "option = 1", "option RELTOL =1m 5", "option RMAX = 2 3", ".endc", "option FS = 1" >>
VARIABLE ctl
Init == ctl = << >>
Next == Len(ctl) < MaxLines /\ \E l \in 1..Len(Alphabet) : ctl' = Append(ctl, Alphabet[l])
Spec == Init /\ [][Next]_ctl

Deck1(c) == <<"title", "V1 1 0 1", "R1 1 0 1", ".control">> \o c \o <<".endc">>
Settings(c) == ReadAll(StartReading("d"), [f \in {"d"} |-> Deck1(c)])
Named(line) == LET b == Code(line)
    IN IF b = << >> THEN {}
       ELSE CASE b[1] = "op" -> {"kind"}
              [] b[1] = "tran" -> {"kind", "TSTEP", "TSTOP", "TSTART"}
              [] b[1] = "option" /\ Len(b) > 1 -> {b[2]} \cap {"ABSTOL", "RELTOL", "RMAX"}
              [] OTHER -> {}
\* settings nobody named have their defaults
OnlyNamed == \E W \in {Settings(ctl)} : W.status = "ok" =>
    \A f \in DOMAIN NoConfig :
        W.cfg[f] = NoConfig[f] \/ \E n \in 1..Len(ctl) : f \in Named(ctl[n])
\* the last command decides what it names, as if it were alone
LastWins == ctl = << >> \/ \E W \in {Settings(ctl)}, A \in {Settings(<<ctl[Len(ctl)]>>)} :
    (W.status = "ok" /\ A.status = "ok" /\ ~ \E n \in 1..Len(ctl) : Code(ctl[n]) = <<".endc">>) =>
        \A f \in Named(ctl[Len(ctl)]) : W.cfg[f] = A.cfg[f]
Printed == PrintT("CASE " \o ToJson([ctl |-> ctl]))
=============================================================================
