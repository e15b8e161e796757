--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* The machine whose transitions are the calls of INNC!Step, with bounded  *)
(* menus of calls.  TLC explores all behaviours of a menu (or simulates    *)
(* long ones), checks the properties below on the specification, and       *)
(* prints every complete behaviour as a program for the real library,      *)
(* whose run is then checked against the specification (Trace.tla).        *)
(*                                                                         *)
(*   MENU   dag | view | life | err | mix       DEPTH  calls after the     *)
(*          prefix              RANDOM yes: take one choice at random      *)
(***************************************************************************)
EXTENDS INNC, Json, IOUtils

Menu == IOEnv.MENU
Depth == atoi(IOEnv.DEPTH)
Random == IOEnv.RANDOM = "yes"        \* one choice at random, for simulation

VARIABLES S,      \* the state of INNC
          prog,   \* the calls so far, as commands of the executor
          step,   \* how many calls of the menu have been made
          fin     \* the behaviour is complete
vars == <<S, prog, step, fin>>

(***************************************************************************)
(* Calls as records (for Step) and as commands                             *)
(***************************************************************************)
Z(z) == <<Len(z)>> \o z
Tok(e) ==
  CASE e.o = "lit" -> <<"lit", e.d, e.t>> \o Z(e.z) \o <<Len(e.v)>> \o FlattenSeq([k \in 1..Len(e.v) |-> <<e.v[k], e.f[k]>>])
    [] e.o = "slice" -> <<"slice", e.d, e.a, 0, Len(e.x)>> \o FlattenSeq(e.x)
    [] e.o = "transpose" -> <<"transpose", e.d, e.a, e.i, e.j, 0>>
    [] e.o = "reshape" -> <<"reshape", e.d, e.a>> \o Z(e.r) \o <<0>>
    [] e.o = "cat" -> <<"cat", e.d>> \o Z(e.l) \o <<e.n>>
    [] e.o = "type" -> <<"type", e.d, e.a, e.t>>
    [] e.o \in {"iadd"} -> <<e.o, e.a, e.b>>
    [] e.o \in {"setrg", "setrt"} -> <<e.o, e.a, e.n>>
    [] e.o \in {"zerog", "back", "show", "all"} -> <<e.o, e.a>>
    [] e.o = "drop" -> <<e.o, e.d>>
    [] "b" \in DOMAIN e -> <<e.o, e.d, e.a, e.b>>
    [] OTHER -> <<e.o, e.d, e.a>>

Lit(d, t, z, v) == [o |-> "lit", d |-> d, t |-> t, z |-> z, v |-> v, f |-> [k \in 1..Len(v) |-> 0]]
Bin(o, d, a, b) == [o |-> o, d |-> d, a |-> a, b |-> b]
Un(o, d, a) == [o |-> o, d |-> d, a |-> a]
Flag(o, a, n) == [o |-> o, a |-> a, n |-> n]
At(o, a) == [o |-> o, a |-> a]
IA(a, b) == [o |-> "iadd", a |-> a, b |-> b]
Drop(d) == [o |-> "drop", d |-> d]
Sl(d, a, x) == [o |-> "slice", d |-> d, a |-> a, x |-> x]
Tr(d, a, i, j) == [o |-> "transpose", d |-> d, a |-> a, i |-> i, j |-> j]
Rs(d, a, r) == [o |-> "reshape", d |-> d, a |-> a, r |-> r]
Ct(d, l, n) == [o |-> "cat", d |-> d, l |-> l, n |-> n]
Ty(d, a, t) == [o |-> "type", d |-> d, a |-> a, t |-> t]
All == <<1, 0, 0, 0, 0, 0, 0>>
Back == <<1, 0, 0, 0, 0, 1, -1>>
From(b) == <<1, 1, b, 0, 0, 0, 0>>
Odd == <<1, 1, 1, 0, 0, 1, 2>>

Used == {h \in 1..12 : Live(S, h)}
Free == CHOOSE h \in 1..13 : ~Live(S, h) /\ \A k \in 1..13 : ~Live(S, k) => h <= k
Rank(h) == Len(Obj(S, h).sz)
Sz(h) == Obj(S, h).sz

(***************************************************************************)
(* The menus.  A choice is a sequence of calls made one after the other.   *)
(***************************************************************************)
Prefix ==
  CASE Menu = "dag" -> <<Lit(1, 5, <<2>>, <<3, -2>>), Lit(2, 4, <<2>>, <<5, 4>>), Flag("setrg", 1, 1), Flag("setrg", 2, 1)>>
    [] Menu = "view" -> <<Lit(1, 2, <<2, 3>>, <<1, 2, 3, 4, 5, 6>>), Lit(14, 2, <<>>, <<10>>)>>
    [] Menu = "life" -> <<Lit(1, 5, <<2>>, <<3, -2>>), Lit(2, 5, <<2>>, <<5, 4>>), Flag("setrg", 1, 1), Flag("setrg", 2, 1), Bin("mul", 3, 1, 2)>>
    [] Menu = "err" -> <<Lit(1, 4, <<2, 2>>, <<1, 2, 3, 4>>), Flag("setrg", 1, 1), Lit(2, 2, <<2>>, <<6, 0>>), Lit(3, 5, <<3>>, <<1, 2, 3>>), Lit(4, 3, <<0, 2>>, <<>>),
                         Bin("mul", 5, 1, 1), Un("sum", 6, 5)>>
    [] Menu = "mix" -> <<Lit(1, 4, <<2, 2>>, <<1, -2, 3, 4>>), Flag("setrg", 1, 1), Lit(2, 5, <<2>>, <<2, -1>>), Flag("setrg", 2, 1), Lit(3, 1, <<2, 1>>, <<3, 7>>)>>

Dag ==
  LET d == Free
  IN {<<Bin(o, d, a, b)>> : o \in {"sub", "mul"}, a \in Used, b \in Used}
     \cup {<<Sl(d, a, <<Back>>)>> : a \in {h \in Used : Rank(h) = 1}}
     \cup {<<Un("sum", d, a)>> : a \in {h \in Used : Rank(h) = 1}}
DagEnd == LET d == Free IN <<Un("sum", d, d - 1), At("back", d)>>

ViewOps(d, a) ==
  (IF Rank(a) >= 1 THEN {<<Sl(d, a, <<Back>>)>>, <<Sl(d, a, <<From(1)>>)>>} ELSE {})
  \cup (IF Rank(a) >= 2 THEN {<<Sl(d, a, <<All, <<0, -1>>>>)>>, <<Sl(d, a, <<All, Odd>>)>>, <<Tr(d, a, 0, 1)>>} ELSE {})
  \cup {<<Rs(d, a, <<-1>>)>>, <<Un("detach", d, a)>>, <<Un("clone", d, a)>>}
  \cup (IF Numel(Sz(a)) = 6 THEN {<<Rs(d, a, <<3, 2>>)>>} ELSE {})
View1 == UNION {ViewOps(Free, a) : a \in Used}
Adds == {<<IA(a, 14)>> : a \in Used}

Pass(a) == <<Un("sum", 12, a), At("back", 12), Drop(12)>>
Life ==
  (IF Live(S, 1) THEN {<<At("zerog", 1)>>, <<Drop(1)>>} ELSE {})
  \cup (IF Live(S, 1) /\ Live(S, 2) THEN {<<Bin("mul", 3, 1, 2)>>, <<Bin("add", 3, 2, 1)>>} ELSE {})
  \cup (IF Live(S, 1) /\ Live(S, 3) THEN {<<Bin("sub", 3, 3, 1)>>, <<Bin("mul", 4, 3, 1)>>} ELSE {})
  \cup (IF Live(S, 2) THEN {<<Flag("setrg", 2, 1 - Obj(S, 2).rg)>>} ELSE {})
  \cup (IF Live(S, 3) THEN {Pass(3), <<Flag("setrt", 3, 1 - Obj(S, 3).rt)>>, <<Drop(3)>>} ELSE {})
  \cup (IF Live(S, 4) THEN {Pass(4), <<Un("assign", 3, 4)>>} ELSE {})

Bad ==
  LET d == 9
  IN {<<Bin(o, d, 1, 3)>> : o \in {"add", "div", "eq"}} \cup {<<Bin("sub", d, 4, 3)>>, <<Bin("mul", d, 1, 4)>>}
     \cup {<<Bin("div", d, 2, 2)>>, <<Bin("div", 2, 2, 2)>>, <<IA(1, 2)>>, <<IA(2, 3)>>, <<IA(3, 1)>>, <<IA(4, 3)>>, <<IA(5, 2)>>}
     \cup {<<At("back", h)>> : h \in {1, 2, 3, 4, 5}}
     \cup {<<Flag("setrg", 2, 1)>>, <<Flag("setrg", 4, 1)>>, <<Ty(d, 1, 2)>>, <<Ty(1, 5, 0)>>, <<Ty(d, 6, 3)>>}
     \cup {<<Rs(d, 1, <<3>>)>>, <<Rs(1, 1, <<-1, -1>>)>>, <<Rs(d, 3, <<-3>>)>>, <<Rs(d, 4, <<0, -1>>)>>, <<Rs(d, 2, <<2, -1, 3>>)>>}
     \cup {<<Tr(d, 1, 0, 2)>>, <<Tr(d, 1, 1, 1)>>, <<Tr(1, 2, 0, 1)>>}
     \cup {<<Sl(d, 1, <<<<0, 2>>>>)>>, <<Sl(d, 2, <<<<0, -3>>>>)>>, <<Sl(d, 3, <<All, All>>)>>, <<Sl(3, 3, <<<<1, 0, 0, 0, 0, 1, 0>>>>)>>, <<Sl(d, 4, <<<<0, 0>>>>)>>, <<Sl(d, 6, <<<<0, 0>>>>)>>}
     \cup {<<Ct(d, <<>>, 0)>>, <<Ct(d, <<1, 2>>, 0)>>, <<Ct(d, <<1, 4>>, 1)>>, <<Ct(d, <<2, 3>>, 1)>>, <<Ct(1, <<1, 1>>, 2)>>, <<Ct(d, <<6>>, 0)>>}
Good ==
  {<<At("back", 6)>>, <<Bin("add", 7, 1, 2)>>, <<IA(3, 3)>>, <<Ct(7, <<1, 4>>, 0)>>, <<At("zerog", 1)>>, <<Flag("setrg", 1, 0)>>, <<Flag("setrg", 3, 1)>>,
   <<Un("neg", 2, 2)>>, <<Un("assign", 3, 2)>>, <<Bin("mul", 5, 1, 3 - 1), Un("mean", 6, 5)>>, <<Flag("setrt", 6, 1)>>}
Err == IF step % 2 = 0 THEN Bad \cup Good ELSE Good \cup Bad

Mix ==
  LET d == Free
      fl == {h \in Used : Numel(Sz(h)) <= 8}
      two == {h \in fl : Rank(h) = 2}
  IN {<<Bin(o, d, a, b)>> : o \in {"add", "sub", "mul", "div", "lt"},
                            a \in fl, b \in fl}
     \cup {<<Un(o, d, a)>> : o \in {"neg", "sum", "mean", "abs", "max", "min", "clone", "detach", "cont"}, a \in fl}
     \cup {<<Tr(d, a, 0, 1)>> : a \in two} \cup {<<Sl(d, a, <<All, Back>>)>> : a \in two} \cup {<<Sl(d, a, <<<<0, -1>>>>)>> : a \in two}
     \cup {<<Rs(d, a, <<-1>>)>> : a \in fl} \cup {<<Ty(d, a, 5)>> : a \in fl}
     \cup {<<Ct(d, <<a, b>>, 0)>> : a \in two, b \in two}
     \cup {<<Un("sum", 12, a), At("back", 12), Drop(12)>> : a \in {h \in fl : Obj(S, h).rg = 1}}
     \cup {<<Flag("setrt", a, 1)>> : a \in fl} \cup {<<At("zerog", 1)>>, <<Flag("setrg", 2, 0)>>} \cup {<<IA(a, b)>> : a \in fl, b \in {3}}
     \cup {<<Drop(a)>> : a \in fl \ {1}}

Choices_ == CASE Menu = "dag" -> Dag
              [] Menu = "view" -> IF step >= Depth - 1 THEN Adds ELSE IF step > 1 THEN View1 \cup Adds ELSE View1
              [] Menu = "life" -> Life
              [] Menu = "err" -> Err
              [] Menu = "mix" -> Mix
Ending == CASE Menu = "dag" -> DagEnd
            [] Menu \in {"life", "err"} /\ Live(S, 3) /\ Obj(S, 3).rg = 1 -> Pass(3)
            [] OTHER -> <<>>

(***************************************************************************)
Legal(e) ==       \* calls with empty handles are not made
  /\ RequiresLive(S, e)
  /\ e.o # "drop" \/ Live(S, e.d)
RECURSIVE Do(_, _)
Do(T, es) ==      \* the state after the calls es, stopping where one is not determined
  IF es = <<>> THEN [S |-> T, n |-> 0]
  ELSE LET e == Head(es)
           ok == RequiresLive(T, e) /\ (e.o # "drop" \/ Live(T, e.d))
           R == IF ok THEN TLCEval(Step(T, e)) ELSE [S |-> T, out |-> 3]
       IN IF ~ok \/ R.out = 3 THEN [S |-> T, n |-> 0]
          ELSE LET q == Do(R.S, Tail(es)) IN [S |-> q.S, n |-> q.n + 1]
Apply(es) ==
  LET q == Do(S, es)
  IN /\ S' = q.S
     /\ prog' = prog \o [k \in 1..q.n |-> Tok(es[k])]

Init ==
  /\ S = FoldLeft(LAMBDA T, e : Step(T, e).S, Empty, Prefix)
  /\ prog = <<<<"begin">>>> \o [k \in 1..Len(Prefix) |-> Tok(Prefix[k])]
  /\ step = 0 /\ fin = FALSE
Call ==
  /\ ~fin /\ step < Depth
  /\ \E c \in IF Random THEN {RandomElement(Choices_)} ELSE Choices_ : Apply(c)
  /\ step' = step + 1 /\ fin' = FALSE
End ==
  /\ ~fin /\ step = Depth
  /\ Apply(Ending)
  /\ fin' = TRUE /\ step' = step
  /\ PrintT("PROG " \o ToJson(prog'))
Next == Call \/ End
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What has to hold of the specification                                   *)
(***************************************************************************)
TypeOK ==
  /\ \A h \in Handles : S.hnd[h] \in 0..Len(S.obj)
  /\ \A k \in 1..Len(S.obj) :
       LET o == S.obj[k]
       IN /\ Len(o.ad) = Numel(o.sz)
          /\ o.s \in 1..Len(S.sto)
          /\ \A i \in 1..Len(o.ad) : o.ad[i] \in 1..Len(S.sto[o.s].v)
          /\ Cardinality({o.ad[i] : i \in 1..Len(o.ad)}) = Len(o.ad)       \* no view shows an element twice
          /\ o.rg = 1 => IsFloat(o.dt)
          /\ o.gr.h = 1 => Len(o.gr.v) = Len(o.ad)
          /\ o.fn.op # "none" => \A i \in 1..Len(o.fn.ins) : o.fn.ins[i] < k

\* the values of every tensor that exists now stay, unless some call is an in-place addition
Called(o) == \E k \in (Len(prog) + 1)..Len(prog') : prog'[k][1] = o
OnlyIAddWrites == [][~Called("iadd") => \A k \in 1..Len(S.sto) : S'.sto[k].v = S.sto[k].v]_vars
\* gradients change by backward and zero_grad only
OnlyBackwardGrads == [][~Called("back") /\ ~Called("zerog") => \A k \in 1..Len(S.obj) : S'.obj[k].gr = S.obj[k].gr]_vars
\* a call that throws changes nothing
ThrowsChangeNothing ==
  \A c \in (IF Menu = "err" /\ ~fin /\ step < Depth THEN Bad ELSE {}) :
     RequiresLive(S, c[1]) => LET R == Step(S, c[1]) IN R.out = 0 => R.S = S
\* tensors keep their type, shape, place and, but for requires_grad and retain_grad, their flags
Immutable == [][\A k \in 1..Len(S.obj) :
  LET o == S.obj[k]  p == S'.obj[k]
  IN o.dt = p.dt /\ o.sz = p.sz /\ o.ad = p.ad /\ o.s = p.s /\ o.fn = p.fn
     /\ (~Called("setrg") => o.rg = p.rg) /\ (~Called("setrt") => o.rt = p.rt)]_vars

(***************************************************************************)
(* The gradient by forward accumulation: the derivative of every tensor    *)
(* with respect to element j of leaf l, from the leaves to the result.     *)
(* An independent definition of what INNC!Backward has to compute.         *)
(***************************************************************************)
Tangent(T, l, j, r) ==
  LET zero(k) == Fresh(N(T.obj[k]), Zero)
      of(acc, k) == IF T.obj[k].rg = 1 THEN acc[k] ELSE zero(k)
      node(acc, k) ==
        LET o == T.obj[k]  f == o.fn
        IN IF f.op = "none" THEN IF k = l THEN [zero(k) EXCEPT ![j] = One] ELSE zero(k)
           ELSE LET x(i) == of(acc, f.ins[i])
                    v(i) == Vals(T, T.obj[f.ins[i]])
                    m(i) == BMap(o.sz, T.obj[f.ins[i]].sz)
                    n == N(o)
                IN CASE f.op = "add" -> [i \in 1..n |-> Add(x(1)[m(1)[i]], x(2)[m(2)[i]])]
                     [] f.op = "sub" -> [i \in 1..n |-> Sub(x(1)[m(1)[i]], x(2)[m(2)[i]])]
                     [] f.op = "neg" -> [i \in 1..n |-> Neg(x(1)[i])]
                     [] f.op = "mul" -> [i \in 1..n |-> Add(Mul(x(1)[m(1)[i]], v(2)[m(2)[i]]), Mul(v(1)[m(1)[i]], x(2)[m(2)[i]]))]
                     [] f.op = "div" -> [i \in 1..n |-> Sub(Div(x(1)[m(1)[i]], v(2)[m(2)[i]]),
                                                            Div(Mul(v(1)[m(1)[i]], x(2)[m(2)[i]]), Mul(v(2)[m(2)[i]], v(2)[m(2)[i]])))]
                     [] f.op = "map" -> [i \in 1..n |-> x(1)[f.m[i]]]
                     [] f.op = "sum" -> <<FoldLeft(Add, Zero, x(1))>>
                     [] f.op = "mean" -> <<Div(FoldLeft(Add, Zero, x(1)), IntN(Len(x(1))))>>
                     [] f.op = "mask" -> IF n = Len(f.m) THEN [i \in 1..n |-> Mul(f.m[i], x(1)[i])]
                                         ELSE <<FoldLeft(Add, Zero, [i \in 1..Len(f.m) |-> Mul(f.m[i], x(1)[i])])>>
                     [] f.op = "cat" -> LET maps == [i \in 1..Len(f.ins) |-> CatMap([q \in 1..Len(f.ins) |-> T.obj[f.ins[q]].sz], f.dim, i)]
                                        IN FoldLeft(LAMBDA a, i : FoldLeft(LAMBDA b, q : [b EXCEPT ![maps[i][q]] = x(i)[q]], a, Iota(Len(maps[i]))),
                                                    Fresh(n, Zero), Iota(Len(f.ins)))
  IN FoldLeft(LAMBDA acc, k : Append(acc, TLCEval(node(acc, k))), <<>>, Iota(r))[r][1]

\* the state before backward() was called on the result that is now in the menu's way
Differ(x, y) == x[2] # 0 /\ y[2] # 0 /\ ~Same(x, y)      \* where a quotient has no finite derivative, the two orders of summing meet 0 * infinity differently
Written(T) == \E k \in 1..Len(T.sto) : T.sto[k].ver > 0
GradientsAreDerivatives ==
  \A h \in 1..12 :
    (Live(S, h) /\ Obj(S, h).rg = 1 /\ Obj(S, h).fn.op # "none" /\ N(Obj(S, h)) = 1 /\ ~Written(S)) =>
      LET r == S.hnd[h]
          T == Backward(S, r)
      IN \A l \in 1..(r - 1) :
           LET o == S.obj[l]  p == T.obj[l]
           IN (o.fn.op = "none" /\ p.gr.h = 1) =>
                \A j \in 1..N(o) : LET g == IF o.gr.h = 1 THEN o.gr.v[j] ELSE Zero
                                   IN o.rg = 1 => ~Differ(p.gr.v[j], Add(g, Tangent(S, l, j, r)))
=============================================================================
