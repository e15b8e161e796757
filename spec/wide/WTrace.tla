------------------------------- MODULE WTrace -------------------------------
\* Trace.tla with the numbers of this directory (run with TLA-Library = ..)
EXTENDS Trace
ASSUME Table[1] = <<1>> /\ \A k \in 1..120 : Table[k + 1] = NSmall(Table[k], 2)
=============================================================================
