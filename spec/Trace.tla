------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Checks recorded runs of the real library against INNC.                  *)
(*                                                                         *)
(* The trace is a file of JSON lines, one per call: the call with its      *)
(* arguments as INNC!Step takes them, the outcome (ok), the answer of a    *)
(* query (ret), and in ch what the user can now see of every handle whose  *)
(* picture changed.  A handle that is not in ch looks as it did before.    *)
(* A call the model cannot explain is reported as MISMATCH with the        *)
(* aspects that differ; checking resumes with the next "begin", or at once *)
(* if the difference is one of description only (Soft).                    *)
(***************************************************************************)
EXTENDS INNC, Json, IOUtils

Yes == TRUE         \* for TraceStrict.cfg
Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* position in the log
          S,      \* the state of the model
          mode    \* 0 following, 1 skipping to the next "begin"
vars == <<l, S, mode>>

\* registers: 2 observed numbers that the model determines, 3 that it leaves open
Count(xs) ==
  LET n == Cardinality({k \in 1..Len(xs) : IsU(xs[k])})
  IN TLCSet(2, TLCGet(2) + Len(xs) - n) /\ TLCSet(3, TLCGet(3) + n)
AllMatch(xs, is, fs) == Count(xs) /\ Len(xs) = Len(is) /\ \A k \in 1..Len(xs) : Matches(xs[k], is[k], fs[k])

\* the aspects in which handle c.h looks different from the model
Differs(T, c) ==
  IF T.hnd[c.h] = 0 THEN {"unexpected"}
  ELSE LET o == Obj(T, c.h)
       IN (IF c.t # o.dt THEN {"dtype"} ELSE {})
          \cup (IF c.s # o.sz THEN {"shape"} ELSE {})
          \cup (IF c.nm # Numel(c.s) THEN {"numel"} ELSE {})
          \cup (IF c.dm # Len(c.s) THEN {"dim"} ELSE {})
          \cup (IF "big" \in DOMAIN c THEN IF N(o) > 2000 THEN {} ELSE {"value"}         \* too many to be listed
                ELSE IF ~AllMatch(Vals(T, o), c.v, c.f) THEN {"value"} ELSE {})
          \cup (IF c.rg # o.rg THEN {"rg"} ELSE {})
          \cup (IF c.rt # o.rt THEN {"rt"} ELSE {})
          \cup (IF o.gr.h = 2 \/ N(o) = 0 THEN {}
                ELSE IF c.g # o.gr.h THEN {"gradpresence"}
                ELSE IF c.g = 0 THEN {}
                ELSE (IF c.gt # o.dt THEN {"graddtype"} ELSE {})
                     \cup (IF c.gs # o.sz THEN {"gradshape"} ELSE {})
                     \cup (IF "big" \in DOMAIN c THEN {} ELSE IF ~AllMatch(o.gr.v, c.gv, c.gf) THEN {"grad"} ELSE {}))
          \cup (IF Contig(o) # 2 /\ c.ct # Contig(o) THEN {"contig"} ELSE {})
          \cup (IF o.lay # 0 /\ N(o) > 0 /\ Len(o.sz) > 0
                   /\ (Len(c.sr) # Len(o.sz) \/ Walk(o.sz, c.sr, o.ad[1]) # o.ad)
                THEN {"stride"} ELSE {})

SameSeq(u, v) == Len(u) = Len(v) /\ \A k \in 1..Len(u) : Same(u[k], v[k])
\* the aspects in which handle h changes in the model from T to T2
Moves(T, T2, h) ==
  IF T.hnd[h] = 0 THEN {"missing"}
  ELSE LET o == Obj(T, h)  p == Obj(T2, h)
       IN (IF o.dt # p.dt THEN {"dtype"} ELSE {})
          \cup (IF o.sz # p.sz THEN {"shape"} ELSE {})
          \cup (IF o.s = p.s /\ o.ad = p.ad /\ T.sto[o.s] = T2.sto[p.s] THEN {}
                ELSE IF SameSeq(Vals(T, o), Vals(T2, p)) THEN {} ELSE {"value"})
          \cup (IF o.rg # p.rg THEN {"rg"} ELSE {})
          \cup (IF o.rt # p.rt THEN {"rt"} ELSE {})
          \cup (IF N(o) = 0 \/ o.gr = p.gr \/ o.gr.h = 2 \/ p.gr.h = 2 THEN {}
                ELSE IF o.gr.h # p.gr.h THEN {"gradpresence"}
                ELSE IF SameSeq(o.gr.v, p.gr.v) THEN {} ELSE {"grad"})

Target(e) == (IF "d" \in DOMAIN e THEN {e.d} ELSE {}) \cup (IF e.o \in {"iadd", "setrg", "setrt", "zerog", "back"} THEN {e.a} ELSE {})

\* the differences between what the model says about call e and what was recorded
Mismatch(e, R) ==
  IF e.o = "crash" THEN {<<0, "crash">>}
  ELSE IF R.out = 3 THEN {}
  ELSE IF e.ok # R.out
  THEN {<<0, IF R.out = 0 THEN "accepts" ELSE IF e.ok = 0 THEN "rejects" ELSE "outcome">>}
  ELSE (IF "ret" \in DOMAIN e /\ ~(R.ret = e.ret \/ R.ret = 2) THEN {<<0, "answer">>} ELSE {})
       \cup UNION {{<<e.ch[k].h, x>> : x \in Differs(R.S, e.ch[k])} : k \in 1..Len(e.ch)}
       \cup LET seen == {e.ch[k].h : k \in 1..Len(e.ch)}
            IN UNION {{<<h, x>> : x \in Moves(S, R.S, h)} : h \in {k \in Handles : R.S.hnd[k] # 0 /\ k \notin seen}}

\* aspects no later call depends on
Soft == {"contig", "stride", "numel", "dim", "answer"}

Init == l = 1 /\ S = Empty /\ mode = 0 /\ TLCSet(2, 0) /\ TLCSet(3, 0)
Next ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET e == Log[l]
     IN IF e.o = "end" THEN /\ PrintT("DONE " \o ToString(l) \o " " \o ToString(TLCGet(2)) \o " " \o ToString(TLCGet(3))) /\ UNCHANGED <<S, mode>>
        ELSE IF e.o = "begin" THEN S' = Empty /\ mode' = 0
        ELSE IF mode = 1 THEN UNCHANGED <<S, mode>>
        ELSE IF e.o = "crash"
        THEN /\ PrintT("MISMATCH " \o ToJson([l |-> l, o |-> e.c, d |-> {<<0, "crash">>}, tg |-> {}, ok |-> 0]))
             /\ mode' = 1 /\ S' = Empty
        ELSE LET R == TLCEval(Step(S, e))
                 bad == Mismatch(e, R)
             IN IF bad = {} THEN IF R.out = 3 THEN S' = Empty /\ mode' = 1 ELSE S' = R.S /\ mode' = 0
                ELSE /\ PrintT("MISMATCH " \o ToJson([l |-> l, o |-> e.o, d |-> bad, tg |-> Target(e), ok |-> e.ok]))
                     /\ IF \A x \in bad : x[2] \in Soft THEN mode' = 0 /\ S' = R.S ELSE mode' = 1 /\ S' = Empty
Spec == Init /\ [][Next]_vars
=============================================================================
