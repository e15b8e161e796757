------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* The algorithm behind backward() (TensorImpl::backward, refresh_n_outway *)
(* and Backward::try_accumulate_update), on every graph of a bounded size: *)
(* a node is processed when as many consumers as refresh_n_outway counted  *)
(* have contributed to it.  Ready nodes are taken in any order, the        *)
(* library takes the first one.  Checked against the definition of the     *)
(* gradient as the sum over all paths (Paths).                             *)
(*                                                                         *)
(* Node k computes the sum of its inputs (two) or their negation (one).    *)
(* Passes > 1 repeats backward() on further roots without building the     *)
(* graph anew; with ResetCounters = FALSE, which is what the library does, *)
(* TLC finds the known findings K1 and K2.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json

CONSTANTS Leaves, Nodes, Passes, ResetCounters, AllFlags, Emit

VARIABLES ins,     \* node -> its inputs
          rg,      \* node -> requires grad
          phase,   \* "idle", "run"
          root, pass,
          nout,    \* consumers counted for this pass
          acc,     \* consumers that have contributed
          grad, ready, done,
          want     \* the gradients of the leaves as they should be
vars == <<ins, rg, phase, root, pass, nout, acc, grad, ready, done, want>>

Inner == (Leaves + 1)..Nodes
Picks(k) == {<<a>> : a \in 1..(k - 1)} \cup {<<a, b>> : a, b \in 1..(k - 1)}
RECURSIVE Graphs(_)
Graphs(k) == IF k <= Leaves THEN {<<>>}
             ELSE {Append(g, c) : g \in Graphs(k - 1), c \in Picks(k)}
Flags(g, f) == FoldLeft(LAMBDA r, k : Append(r, \E i \in 1..Len(g[k]) : r[g[k][i]]), f, [k \in 1..(Nodes - Leaves) |-> k])

\* the sum over all paths from node k to each leaf, by recursion from the leaves
Zeros == [i \in 1..Leaves |-> 0]
RECURSIVE Paths(_, _, _)
Paths(g, f, k) ==
  IF ~f[k] THEN Zeros
  ELSE IF k <= Leaves THEN [Zeros EXCEPT ![k] = 1]
  ELSE LET w == g[k - Leaves]
       IN IF Len(w) = 1 THEN [i \in 1..Leaves |-> -Paths(g, f, w[1])[i]]
          ELSE [i \in 1..Leaves |-> Paths(g, f, w[1])[i] + Paths(g, f, w[2])[i]]

RECURSIVE Below(_, _, _)
Below(g, f, k) == IF k <= Leaves \/ ~f[k] THEN {}
                  ELSE {k} \cup UNION {Below(g, f, g[k - Leaves][i]) : i \in 1..Len(g[k - Leaves])}

In(k) == ins[k - Leaves]
Init ==
  /\ ins \in Graphs(Nodes)
  /\ \E f \in IF AllFlags THEN [1..Leaves -> BOOLEAN] ELSE {[i \in 1..Leaves |-> TRUE]} :
       rg = Flags(ins, f)
  /\ phase = "idle" /\ root = 0 /\ pass = 0
  /\ nout = [k \in 1..Nodes |-> 0] /\ acc = [k \in 1..Nodes |-> 0]
  /\ grad = [k \in 1..Nodes |-> 0] /\ ready = {} /\ done = {}
  /\ want = Zeros

\* how often the nodes of R use node k
Uses(R, k) == FoldLeft(LAMBDA n, j : n + Cardinality({i \in 1..Len(In(j)) : In(j)[i] = k}), 0, SetToSeq(R))

Start ==
  /\ phase = "idle" /\ pass < Passes
  /\ \E r \in IF pass = 0 THEN {Nodes} ELSE Inner :
       /\ rg[r]
       /\ root' = r
       /\ LET R == Below(ins, rg, r)
          IN nout' = [k \in 1..Nodes |-> IF k \in R THEN Uses(R, k) ELSE nout[k]]
       /\ acc' = IF ResetCounters THEN [k \in 1..Nodes |-> 0] ELSE acc
       /\ grad' = [grad EXCEPT ![r] = 1]
       /\ ready' = {r}
       /\ want' = [i \in 1..Leaves |-> want[i] + Paths(ins, rg, r)[i]]
  /\ done' = {} /\ phase' = "run" /\ pass' = pass + 1
  /\ UNCHANGED <<ins, rg>>

Process(k) ==
  /\ phase = "run" /\ k \in ready
  /\ LET w == In(k)
         give(gr, i) == IF rg[w[i]] THEN [gr EXCEPT ![w[i]] = @ + IF Len(w) = 1 THEN -grad[k] ELSE grad[k]] ELSE gr
         count(a, i) == IF rg[w[i]] /\ w[i] > Leaves THEN [a EXCEPT ![w[i]] = @ + 1] ELSE a
         is == [i \in 1..Len(w) |-> i]
         a2 == FoldLeft(count, acc, is)
         fresh == {x \in {w[i] : i \in 1..Len(w)} : x > Leaves /\ rg[x] /\ x \notin done /\ x \notin ready /\ a2[x] = nout[x]}
     IN /\ grad' = [FoldLeft(give, grad, is) EXCEPT ![k] = 0]
        /\ acc' = a2
        /\ ready' = (ready \ {k}) \cup fresh
  /\ done' = done \cup {k}
  /\ UNCHANGED <<ins, rg, phase, root, pass, nout, want>>

\* the graph as a program for the real library: tensors of one element
Value(i) == <<2 * i + 1, 0>>
Prog ==
  <<<<"begin">>>>
  \o [i \in 1..Leaves |-> <<"lit", i, 5 - (i % 2), 1, 1, 1>> \o Value(i)]
  \o FlattenSeq([i \in 1..Leaves |-> IF rg[i] THEN <<<<"setrg", i, 1>>>> ELSE <<>>])
  \o [j \in 1..(Nodes - Leaves) |->
       LET k == j + Leaves IN IF Len(ins[j]) = 1 THEN <<"neg", k, ins[j][1]>> ELSE <<"add", k, ins[j][1], ins[j][2]>>]
  \o <<<<"back", Nodes>>>>

Finish ==
  /\ phase = "run" /\ ready = {}
  /\ phase' = "idle"
  /\ Emit => PrintT("PROG " \o ToJson(Prog))
  /\ UNCHANGED <<ins, rg, root, pass, nout, acc, grad, ready, done, want>>

Next == Start \/ Finish \/ \E k \in Inner : Process(k)
Spec == Init /\ [][Next]_vars

(* nothing is processed before all consumers on the way from the root have contributed *)
InOrder == phase = "run" =>
  \A k \in done : \A j \in Below(ins, rg, root) : (\E i \in 1..Len(In(j)) : In(j)[i] = k) => j \in done
(* at the end every node below the root has been processed, and only those *)
Complete == phase = "run" /\ ready = {} => done = Below(ins, rg, root)
(* and the leaves hold the sum over all paths *)
Right == phase = "idle" => \A i \in 1..Leaves : grad[i] = want[i]
(* results keep nothing *)
Clean == phase = "idle" => \A k \in Inner : grad[k] = 0
=============================================================================
