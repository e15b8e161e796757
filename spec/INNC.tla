-------------------------------- MODULE INNC --------------------------------
(***************************************************************************)
(* What a user of INNC can observe of it.                                  *)
(*                                                                         *)
(* A state S is a record                                                   *)
(*   hnd  handle -> object, 0 if the handle is empty                       *)
(*   obj  the tensors created so far, in the order of their creation       *)
(*   sto  the storages they look at                                        *)
(* A tensor is                                                             *)
(*   dt   type            sz  shape                                        *)
(*   s    storage         ad  for each element, in row-major order, its    *)
(*                            address in the storage                       *)
(*   rg   requires_grad   rt  retain_grad                                  *)
(*   fn   how it was computed, [op |-> "none"] if it is a leaf             *)
(*   gr   its gradient: h = 0 there is none, 1 there is one with values v, *)
(*        2 not determined                                                 *)
(*   tv   1 iff a backward pass went through it (not from it)              *)
(*   lay  2 row-major in one piece, 1 given by ad, 0 left open             *)
(* A storage is                                                            *)
(*   v    values          ver how often it has been written                *)
(*   pz   TRUE iff no zero among the values can be the negative one        *)
(*   fam  storages of one family may be one and the same (whether reshape  *)
(*        of a tensor that is not contiguous copies is left open)          *)
(*                                                                         *)
(* Step(S, e) is the effect of one call e: the next state, and the outcome *)
(*   out  1 the call returns, 0 it throws, 2 there is no gradient to copy, *)
(*        3 not determined                                                 *)
(*   ret  the answer of a query                                            *)
(* A call that throws changes nothing.                                     *)
(***************************************************************************)
EXTENDS Num, Layout, FiniteSets

NHandles == 16
Handles == 1..NHandles
None == [op |-> "none"]
NoGrad == [h |-> 0, v |-> <<>>]
AnyGrad == [h |-> 2, v |-> <<>>]

Empty == [hnd |-> [h \in Handles |-> 0], obj |-> <<>>, sto |-> <<>>]

Obj(S, h) == S.obj[S.hnd[h]]
Live(S, h) == S.hnd[h] # 0
Vals(S, o) == LET w == S.sto[o.s].v IN TLCEval([k \in 1..Len(o.ad) |-> w[o.ad[k]]])
Ver(S, o) == S.sto[o.s].ver
N(o) == Len(o.ad)

Ok(S) == [S |-> S, out |-> 1, ret |-> 0]
Ret(S, r) == [S |-> S, out |-> 1, ret |-> r]
Throw(S) == [S |-> S, out |-> 0, ret |-> 0]
Tell(S, c) == [S |-> S, out |-> c, ret |-> 0]

NewObj(dt, sz, ad, s, rg, fn, lay) ==
  [dt |-> dt, sz |-> sz, ad |-> ad, s |-> s, rg |-> rg, rt |-> 0, fn |-> fn,
   gr |-> NoGrad, tv |-> 0, lay |-> lay]

\* handle d becomes a new tensor with a storage of its own
PutFam(S, d, dt, sz, v, rg, fn, fam, lay) ==
  LET k == Len(S.sto) + 1
  IN [hnd |-> [S.hnd EXCEPT ![d] = Len(S.obj) + 1],
      sto |-> Append(S.sto, [v |-> v, ver |-> 0, pz |-> FALSE, fam |-> IF fam = 0 THEN k ELSE fam]),
      obj |-> Append(S.obj, NewObj(dt, sz, Iota(Len(v)), k, rg, fn, lay))]
Put(S, d, dt, sz, v, rg, fn) == PutFam(S, d, dt, sz, v, rg, fn, 0, 2)
\* a fresh tensor, not computed from others
New(S, d, dt, sz, v) ==
  LET T == Put(S, d, dt, sz, v, 0, None) IN [T EXCEPT !.sto[Len(T.sto)].pz = TRUE]

\* handle d becomes a view of tensor o: element k of the view is element m[k] of o
PutView(S, d, o, sz, m, rg, fn, lay) ==
  [hnd |-> [S.hnd EXCEPT ![d] = Len(S.obj) + 1],
   sto |-> S.sto,
   obj |-> Append(S.obj, NewObj(o.dt, sz, TLCEval([k \in 1..Len(m) |-> o.ad[m[k]]]), o.s, rg, fn, lay))]

Fresh(n, x) == [k \in 1..n |-> x]

Flatten(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

\* the storages of gradients that the user holds; what a write to a gradient does to them is left open
GradFam == -1
GradsWritten(S) == [S EXCEPT !.sto = TLCEval([j \in 1..Len(S.sto) |->
  IF S.sto[j].fam = GradFam THEN [S.sto[j] EXCEPT !.v = TLCEval([k \in 1..Len(@) |-> U]), !.ver = @ + 1] ELSE S.sto[j]])]

(***************************************************************************)
(* Contiguity: 1 certainly, 0 certainly not, 2 left open                   *)
(***************************************************************************)
Consecutive(o) == \A k \in 2..N(o) : o.ad[k] = o.ad[1] + k - 1
Contig(o) ==
  IF o.lay = 2 THEN 1
  ELSE IF o.lay = 0 \/ N(o) = 0 THEN 2
  ELSE IF ~Consecutive(o) THEN 0
  ELSE IF \E i \in 1..Len(o.sz) : o.sz[i] = 1 THEN 2 ELSE 1

(***************************************************************************)
(* Gradients                                                               *)
(***************************************************************************)
\* w[i] added up over the i with m[i] = j, for each j in 1..n
Scatter(dt, n, m, w) ==
  IF m = Iota(n) THEN w
  ELSE FoldLeft(LAMBDA acc, i : TLCEval([acc EXCEPT ![m[i]] = GStore(dt, Add(@, w[i]))]),
                [j \in 1..n |-> Zero], Iota(Len(m)))

\* what node o with gradient g adds to the gradient of its k-th input
Contribution(S, o, k, g) ==
  LET f == o.fn
      in == S.obj[f.ins[k]]
      n == N(in)
      dt == in.dt
      Bm == BMap(o.sz, in.sz)
      St(q) == TLCEval([i \in 1..Len(q) |-> GStore(dt, q[i])])
  IN CASE f.op = "add" -> Scatter(dt, n, Bm, St(g))
       [] f.op = "sub" -> Scatter(dt, n, Bm, IF k = 1 THEN St(g)
                                             ELSE TLCEval([i \in 1..Len(g) |-> GStore(dt, Neg(g[i]))]))
       [] f.op = "neg" -> TLCEval([i \in 1..n |-> GStore(dt, Neg(g[i]))])
       [] f.op = "mul" ->
            LET y == S.obj[f.ins[3 - k]]
                w == Vals(S, y)
                my == BMap(o.sz, y.sz)
                same == Ver(S, y) = f.vr[3 - k]      \* not written since
            IN Scatter(dt, n, Bm, TLCEval([i \in 1..Len(g) |->
                 IF same THEN GStore(dt, Mul(g[i], w[my[i]])) ELSE U]))
       [] f.op = "div" ->
            LET x == S.obj[f.ins[1]]  y == S.obj[f.ins[2]]
                u == Vals(S, x)  w == Vals(S, y)
                mx == BMap(o.sz, x.sz)  my == BMap(o.sz, y.sz)
                same == Ver(S, y) = f.vr[2] /\ (k = 1 \/ (Ver(S, x) = f.vr[1] /\ Ver(S, o) = 0))
            IN Scatter(dt, n, Bm, TLCEval([i \in 1..Len(g) |->
                 IF ~same THEN U
                 ELSE IF k = 1 THEN GStore(dt, Div(g[i], w[my[i]]))
                 ELSE IF w[my[i]] = Zero \/ Special(w[my[i]]) \/ Special(u[mx[i]]) THEN U       \* no derivative there
                 ELSE GStore(dt, Neg(Div(Mul(g[i], Div(u[mx[i]], w[my[i]])), w[my[i]])))]))
       [] f.op = "map" -> Scatter(dt, n, f.m, St(g))
       [] f.op = "sum" -> Fresh(n, GStore(dt, g[1]))
       [] f.op = "mean" -> Fresh(n, GStore(dt, Div(g[1], IntN(n))))
       [] f.op = "mask" -> TLCEval([i \in 1..n |->
                             LET q == IF Len(g) = 1 /\ n # 1 THEN g[1] ELSE g[i]
                             IN IF Special(q) THEN U ELSE GStore(dt, Mul(f.m[i], q))])
       [] f.op = "cat" -> LET m == CatMap([j \in 1..Len(f.ins) |-> S.obj[f.ins[j]].sz], f.dim, k)
                          IN TLCEval([i \in 1..n |-> GStore(dt, g[m[i]])])

\* w, whose elements are sums of up to c numbers, added to g
AddTo(dt, g, w, c) == TLCEval([i \in 1..Len(g) |-> GAdd(dt, g[i], w[i], c)])

\* P: pending gradients. h = 0 not reached, 1 reached, 2 reached but not determined
\* the contributions of node id with gradient g to the pending gradients P
Spread(S, P, id, g, open) ==
  LET o == S.obj[id]
  IN FoldLeft(LAMBDA Q, k :
       LET j == o.fn.ins[k]
           in == S.obj[j]
       IN IF in.rg = 0 \/ Q[j].h = 2 THEN Q
          ELSE IF open THEN [Q EXCEPT ![j] = AnyGrad]
          ELSE LET w == Contribution(S, o, k, g)
                   c == IF Len(w) = 0 THEN 1 ELSE Len(g) \div Len(w) + 1
               IN TLCEval([Q EXCEPT ![j] = IF @.h = 0 THEN [h |-> 1, v |-> w, c |-> c]
                                           ELSE [h |-> 1, v |-> AddTo(in.dt, @.v, w, c), c |-> @.c + c]]),
       P, Iota(Len(o.fn.ins)))

(***************************************************************************)
(* A backward pass from node r.  Every node that is reached over edges     *)
(* whose input requires grad gets the sum of the contributions of all its  *)
(* consumers; nodes are numbered in the order of their creation, so all    *)
(* consumers of a node have larger numbers.  Leaves add the sum to the     *)
(* gradient they have, results keep it only if retain_grad.                *)
(*                                                                         *)
(* What happens to the gradients behind a result that an earlier pass went *)
(* through, or that holds a gradient of an earlier pass, is left open here *)
(* unless Strict (see Engine.tla and the known findings).                  *)
(***************************************************************************)
Strict == FALSE      \* TRUE in TraceStrict.cfg: nothing about the second pass is left open
NonZero(g) == \E i \in 1..Len(g) : g[i] # Zero
BackStep(A, id, r) ==
  LET o == A.S.obj[id]
      p == A.P[id]
  IN IF p.h = 0 THEN A
     ELSE IF o.fn.op = "none"
     THEN LET g == IF p.h = 2 \/ o.gr.h = 2 THEN AnyGrad
                   ELSE [h |-> 1, v |-> IF o.gr.h = 0 THEN p.v ELSE AddTo(o.dt, o.gr.v, p.v, p.c)]
          IN [A EXCEPT !.S.obj[id].gr = g]
     ELSE LET again == id # r /\ (o.tv = 1 \/ o.gr.h = 2 \/ (o.gr.h = 1 /\ NonZero(o.gr.v)))
              open == id # r /\ (p.h = 2 \/ (~Strict /\ again))
              P2 == Spread(A.S, A.P, id, p.v, open)
              g == IF open \/ (again /\ o.rt = 1) THEN AnyGrad ELSE IF o.rt = 1 THEN [h |-> 1, v |-> p.v] ELSE NoGrad
          IN [S |-> [A.S EXCEPT !.obj[id] = [@ EXCEPT !.gr = g, !.tv = IF id = r THEN @ ELSE 1]],
              P |-> P2]

Backward(S, r) ==
  LET P0 == [j \in 1..r |-> IF j = r THEN [h |-> 1, v |-> <<One>>] ELSE NoGrad]
  IN FoldLeft(LAMBDA A, k : TLCEval(BackStep(A, r + 1 - k, r)), [S |-> S, P |-> P0], Iota(r)).S

(***************************************************************************)
(* Calls                                                                   *)
(***************************************************************************)
ArithOps == {"add", "sub", "mul", "div"}
CmpOps == {"lt", "gt", "le", "ge", "eq", "ne"}

Binary(S, e) ==
  LET x == Obj(S, e.a)  y == Obj(S, e.b)
      c == Larger(x.dt, y.dt)
      sz == Broadcast(x.sz, y.sz)
      u == Vals(S, x)  w == Vals(S, y)
      mx == BMap(sz, x.sz)  my == BMap(sz, y.sz)
      n == Numel(sz)
      zero == e.o = "div" /\ IsInt(c) /\ \E k \in 1..n : w[my[k]] = Zero
      open == e.o = "div" /\ IsInt(c) /\ \E k \in 1..n : IsU(w[my[k]])
      pz == IsInt(y.dt) \/ S.sto[y.s].pz
      v == TLCEval([k \in 1..n |->
             LET p == Operand(c, x.dt, u[mx[k]])  q == Operand(c, y.dt, w[my[k]])
             IN IF e.o = "div" /\ IsFloat(c) /\ q = Zero /\ pz /\ SurelyNot0(p) /\ p # Nan THEN SignedInf(p)
                ELSE IF e.o \in ArithOps THEN Arith(e.o, c, p, q) ELSE Compare(e.o, p, q)])
      rg == IF e.o \in ArithOps /\ (x.rg = 1 \/ y.rg = 1) THEN 1 ELSE 0
  IN IF ~Broadcastable(x.sz, y.sz) \/ zero THEN Throw(S)
     ELSE IF open THEN Tell(S, 3)
     ELSE Ok(Put(S, e.d, IF e.o \in ArithOps THEN c ELSE 0, sz, v, rg,
                 IF rg = 0 THEN None
                 ELSE [op |-> e.o, ins |-> <<S.hnd[e.a], S.hnd[e.b]>>, vr |-> <<Ver(S, x), Ver(S, y)>>]))

\* a new tensor computed from one operand; fn is used if the operand requires grad
Unary(S, e, dt, sz, v, fn) ==
  LET x == Obj(S, e.a)
  IN Ok(Put(S, e.d, dt, sz, v, x.rg, IF x.rg = 1 THEN fn ELSE None))
Ins(S, e) == <<S.hnd[e.a]>>

Negate(S, e) ==
  LET x == Obj(S, e.a)  u == Vals(S, x)
  IN Unary(S, e, x.dt, x.sz, TLCEval([k \in 1..N(x) |-> Arith("sub", x.dt, Zero, u[k])]),
           [op |-> "neg", ins |-> Ins(S, e)])

Total(dt, v) == SumEnd(dt, FoldLeft(LAMBDA a, b : SumStep(dt, a, b), Zero, v))
Sum(S, e) ==
  LET x == Obj(S, e.a)
  IN Unary(S, e, IF IsInt(x.dt) THEN 3 ELSE 5, <<>>, <<Total(x.dt, Vals(S, x))>>,
           [op |-> "sum", ins |-> Ins(S, e)])
Mean(S, e) ==
  LET x == Obj(S, e.a)
      t == Total(x.dt, Vals(S, x))
      v == IF N(x) = 0 THEN U
           ELSE IF IsInt(x.dt) THEN Arith("div", 3, t, IntN(N(x)))
           ELSE Div(t, IntN(N(x)))
  IN Unary(S, e, IF IsInt(x.dt) THEN 3 ELSE 5, <<>>, <<v>>, [op |-> "mean", ins |-> Ins(S, e)])
AbsVal(S, e) ==
  LET x == Obj(S, e.a)  u == Vals(S, x)
  IN Unary(S, e, x.dt, x.sz,
           TLCEval([k \in 1..N(x) |-> IF IsInt(x.dt) THEN StoreI(x.dt, Magnitude(u[k])) ELSE Magnitude(u[k])]),
           [op |-> "mask", ins |-> Ins(S, e), m |-> TLCEval([k \in 1..N(x) |-> Sgn(u[k])])])

\* c = 1: maximum, c = -1: minimum
Extremum(S, e, c) ==
  LET x == Obj(S, e.a)  u == Vals(S, x)
      open == N(x) = 0 \/ \E k \in 1..N(x) : ~Ordered(u[k])
      b == FoldLeft(LAMBDA a, k : IF Cmp(u[k], u[a]) = c THEN k ELSE a, 1, Iota(N(x)))
      ties == Cardinality({k \in 1..N(x) : u[k] = u[b]})
  IN IF open THEN Unary(S, e, x.dt, <<>>, <<U>>, [op |-> "mask", ins |-> Ins(S, e), m |-> Fresh(N(x), U)])
     ELSE Unary(S, e, x.dt, <<>>, <<u[b]>>,
                [op |-> "mask", ins |-> Ins(S, e),       \* among equal elements the choice is open
                 m |-> TLCEval([k \in 1..N(x) |-> IF u[k] # u[b] THEN Zero ELSE IF ties = 1 THEN One ELSE U])])

ViewFn(S, e, x, m) == IF x.rg = 1 THEN [op |-> "map", ins |-> Ins(S, e), m |-> m] ELSE None
View(S, e, sz, m) ==
  LET x == Obj(S, e.a) IN Ok(PutView(S, e.d, x, sz, m, x.rg, ViewFn(S, e, x, m), IF x.lay = 0 THEN 0 ELSE 1))
\* a copy; fam = 0 if it certainly is one
Copy(S, e, dt, sz, v, fam, lay) ==
  LET x == Obj(S, e.a)
  IN Ok(PutFam(S, e.d, dt, sz, v, x.rg, ViewFn(S, e, x, Iota(N(x))), fam, lay))

Convert(S, e) ==
  LET x == Obj(S, e.a)  u == Vals(S, x)
  IN IF x.rg = 1 /\ IsInt(e.t) THEN Throw(S)
     ELSE IF e.t = x.dt THEN Ok([S EXCEPT !.hnd[e.d] = S.hnd[e.a]])
     ELSE Copy(S, e, e.t, x.sz, TLCEval([k \in 1..N(x) |-> Conv(e.t, x.dt, u[k])]), 0, 2)

Reshape(S, e, req) ==
  LET x == Obj(S, e.a)
      sz == ReshapeShape(N(x), req)
  IN IF ~ReshapeValid(N(x), req) THEN Throw(S)
     ELSE IF N(x) = 1 \/ Contig(x) = 1
     THEN Ok(PutView(S, e.d, x, sz, Iota(N(x)), x.rg, ViewFn(S, e, x, Iota(N(x))), 2))
     ELSE Copy(S, e, x.dt, sz, Vals(S, x), S.sto[x.s].fam, 0)

Cat(S, e) ==
  LET os == [k \in 1..Len(e.l) |-> Obj(S, e.l[k])]
      szs == [k \in 1..Len(e.l) |-> os[k].sz]
  IN IF ~CatValid(szs, e.n) THEN Throw(S)
     ELSE LET dt == FoldLeft(LAMBDA a, o : Larger(a, o.dt), 0, os)
              sz == CatShape(szs, e.n)
              rg == IF \E k \in 1..Len(os) : os[k].rg = 1 THEN 1 ELSE 0
              us == TLCEval([k \in 1..Len(os) |-> Vals(S, os[k])])
              \* in row-major order the result consists of slabs, one piece of each operand in turn
              piece == TLCEval([k \in 1..Len(os) |-> Numel(SubSeq(szs[k], e.n + 1, Len(szs[k])))])
              slab == TLCEval(Flatten([k \in 1..Len(os) |-> TLCEval([i \in 1..piece[k] |-> <<k, i>>])]))
              v == [i \in 1..Numel(sz) |->
                     LET q == slab[((i - 1) % Len(slab)) + 1]  k == q[1]
                     IN Conv(dt, os[k].dt, us[k][((i - 1) \div Len(slab)) * piece[k] + q[2]])]
          IN Ok(Put(S, e.d, dt, sz, TLCEval(v), rg,
                    IF rg = 0 THEN None
                    ELSE [op |-> "cat", ins |-> [k \in 1..Len(e.l) |-> S.hnd[e.l[k]]], dim |-> e.n]))

(***************************************************************************)
(* In-place addition writes through every view of the storage.             *)
(***************************************************************************)
IAdd(S, e) ==
  LET x == Obj(S, e.a)  y == Obj(S, e.b)
      u == Vals(S, x)  w == Vals(S, y)
      sz == Broadcast(x.sz, y.sz)
      my == BMap(sz, y.sz)
      c == Larger(x.dt, y.dt)
      \* some element of y would be read after the element of x at the same address was written
      clash == \/ x.s # y.s /\ S.sto[x.s].fam = S.sto[y.s].fam
               \/ x.s = y.s /\ \E k \in 1..N(x) : \E j \in 1..N(y) :
                    x.ad[k] = y.ad[j] /\ ~(sz = x.sz /\ my[k] = j /\ \A i \in 1..N(x) : my[i] = j => i = k)
      open == sz # x.sz \/ clash
      z == TLCEval([k \in 1..N(x) |->
             IF open THEN U
             ELSE LET p == Operand(c, x.dt, u[k])  q == Operand(c, y.dt, w[my[k]])
                  IN Conv(x.dt, c, Arith("add", c, p, q))])
      \* address -> element of x
      St == S.sto[x.s]
      nv == IF x.ad = Iota(Len(St.v)) THEN z
            ELSE FoldLeft(LAMBDA acc, k : [acc EXCEPT ![x.ad[k]] = z[k]], St.v, Iota(N(x)))
      G == IF St.fam # GradFam THEN S
           ELSE [S EXCEPT !.obj = [j \in 1..Len(S.obj) |-> IF S.obj[j].gr.h = 1 THEN [S.obj[j] EXCEPT !.gr = AnyGrad] ELSE S.obj[j]]]
  IN IF x.rg = 1 \/ ~Broadcastable(x.sz, y.sz) THEN Throw(S)
     ELSE Ok([G EXCEPT !.sto = TLCEval([j \in 1..Len(S.sto) |->
                IF j = x.s THEN [St EXCEPT !.v = TLCEval(nv), !.ver = @ + 1, !.pz = FALSE]
                ELSE IF S.sto[j].fam = St.fam
                THEN [S.sto[j] EXCEPT !.v = Fresh(Len(@), U), !.ver = @ + 1]
                ELSE S.sto[j]])])

(***************************************************************************)
(* to_string: the brackets and commas around the numbers.                  *)
(* 1 [   2 ]   3 ,   0 a number                                            *)
(***************************************************************************)
RECURSIVE Tokens(_)
Tokens(sz) ==
  IF sz = <<>> THEN <<0>>
  ELSE LET t == Tokens(Tail(sz))
       IN <<1>> \o FoldLeft(LAMBDA a, k : a \o (IF k = 1 THEN <<>> ELSE <<3>>) \o t, <<>>, Iota(Head(sz))) \o <<2>>

RequiresLive(S, e) ==
  /\ "a" \in DOMAIN e => Live(S, e.a)
  /\ "b" \in DOMAIN e => Live(S, e.b)
  /\ "l" \in DOMAIN e => \A k \in 1..Len(e.l) : Live(S, e.l[k])

\* a nested literal, in prefix order: 100 + n a list of n parts, 10 * t + n a list of n numbers of type t.
\* All parts of a list must have the same shape and type.
RECURSIVE LitTree(_, _)
LitTree(c, i) ==
  IF c[i] < 100 THEN [ok |-> TRUE, sz |-> <<c[i] % 10>>, t |-> c[i] \div 10, j |-> i + 1]
  ELSE LET r == FoldLeft(LAMBDA acc, k : LET p == LitTree(c, acc.j)
                                         IN [ok |-> acc.ok /\ p.ok /\ (k = 1 \/ (p.sz = acc.sz /\ p.t = acc.t)), sz |-> p.sz, t |-> p.t, j |-> p.j],
                         [ok |-> TRUE, sz |-> <<>>, t |-> 0, j |-> i + 1], Iota(c[i] - 100))
       IN [r EXCEPT !.sz = <<c[i] - 100>> \o @]

Step(S, e) ==
  CASE e.o = "begin" -> Ok(Empty)
    [] "z" \in DOMAIN e /\ TooMany(e.z) -> Throw(S)
    [] e.o = "eye" /\ TooMany(<<e.n, e.m>>) -> Throw(S)
    [] e.o \in {"lit", "init"} ->
         Ok(New(S, e.d, e.t, e.z, TLCEval([k \in 1..Len(e.v) |-> Conv(e.t, e.t, Given(e.v[k], e.f[k]))])))
    [] e.o = "ragged" -> Throw(S)
    [] e.o = "tree" -> LET p == LitTree(e.c, 1)
                       IN IF ~p.ok THEN Throw(S)
                          ELSE Ok(New(S, e.d, p.t, p.sz, TLCEval([k \in 1..Numel(p.sz) |->
                                 Conv(p.t, p.t, Given(IF k % 2 = 1 THEN k ELSE -k, IF IsInt(p.t) THEN 0 ELSE 500000))])))
    [] e.o = "scal" -> Ok(New(S, e.d, e.t, <<>>, <<Conv(e.t, e.t, Given(e.v[1], e.f[1]))>>))
    [] e.o = "zeros" -> Ok(New(S, e.d, e.t, e.z, Fresh(Numel(e.z), Zero)))
    [] e.o = "ones" -> Ok(New(S, e.d, e.t, e.z, Fresh(Numel(e.z), One)))
    [] e.o = "sized" -> Ok(Put(S, e.d, e.t, e.z, Fresh(Numel(e.z), U), 0, None))
    [] e.o = "zlike" -> LET x == Obj(S, e.a) IN Ok(New(S, e.d, x.dt, x.sz, Fresh(N(x), Zero)))
    [] e.o = "olike" -> LET x == Obj(S, e.a) IN Ok(New(S, e.d, x.dt, x.sz, Fresh(N(x), One)))
    [] e.o = "fulli" -> Ok(New(S, e.d, e.t, e.z, Fresh(Numel(e.z), Conv(e.t, 3, Given(e.v[1], 0)))))
    [] e.o = "fulld" -> Ok(New(S, e.d, e.t, e.z, Fresh(Numel(e.z), Conv(e.t, 5, Conv(5, 5, Given(e.v[1], e.f[1]))))))
    [] e.o = "eye" -> Ok(Put(S, e.d, e.t, <<e.n, e.m>>,
                             TLCEval([k \in 1..(e.n * e.m) |->
                               IF (k - 1) \div e.m = (k - 1) % e.m THEN One ELSE Zero]), 0, None))
    [] e.o = "randn" -> IF IsInt(e.t) THEN Throw(S)
                        ELSE Ok(Put(S, e.d, e.t, e.z, Fresh(Numel(e.z), U), 0, None))
    [] e.o = "rlike" -> LET x == Obj(S, e.a)
                        IN IF IsInt(x.dt) THEN Throw(S)
                           ELSE Ok(Put(S, e.d, x.dt, x.sz, Fresh(N(x), U), 0, None))
    [] e.o \in ArithOps \cup CmpOps -> Binary(S, e)
    [] e.o = "neg" -> Negate(S, e)
    [] e.o = "sum" -> Sum(S, e)
    [] e.o = "mean" -> Mean(S, e)
    [] e.o = "abs" -> AbsVal(S, e)
    [] e.o = "max" -> Extremum(S, e, 1)
    [] e.o = "min" -> Extremum(S, e, -1)
    [] e.o = "type" -> Convert(S, e)
    [] e.o = "slice" ->
         LET x == Obj(S, e.a)
         IN IF ~SliceValid(x.sz, e.x)
            THEN Throw(S)
            ELSE View(S, e, SliceShape(x.sz, e.x), SliceMap(x.sz, e.x))
    [] e.o = "tslice" ->
         LET x == Obj(S, e.a)
         IN IF TextOpen(e.c) THEN Tell(S, 3)
            ELSE IF ~TextGood(e.c) THEN Throw(S)
            ELSE LET fs == TextSlice(e.c)
                 IN IF ~SliceValid(x.sz, fs) THEN Throw(S)
                    ELSE View(S, e, SliceShape(x.sz, fs), SliceMap(x.sz, fs))
    [] e.o = "badslice" -> Throw(S)
    [] e.o = "transpose" ->
         LET x == Obj(S, e.a)
         IN IF ~TransposeValid(x.sz, e.i, e.j) THEN Throw(S)
            ELSE View(S, e, SwapAt(x.sz, e.i, e.j), TransposeMap(x.sz, e.i, e.j))
    [] e.o = "reshape" -> Reshape(S, e, e.r)
    [] e.o = "reshapeas" -> Reshape(S, e, Obj(S, e.b).sz)
    [] e.o = "clone" -> LET x == Obj(S, e.a) IN Copy(S, e, x.dt, x.sz, Vals(S, x), 0, 2)
    [] e.o = "cont" -> LET x == Obj(S, e.a)
                       IN Copy(S, e, x.dt, x.sz, Vals(S, x),
                               IF Contig(x) = 0 THEN 0 ELSE S.sto[x.s].fam, 2)
    [] e.o = "detach" -> LET x == Obj(S, e.a) IN Ok(PutView(S, e.d, x, x.sz, Iota(N(x)), 0, None, x.lay))
    [] e.o \in {"assign", "pos"} -> Ok([S EXCEPT !.hnd[e.d] = S.hnd[e.a]])
    [] e.o = "drop" -> Ok([S EXCEPT !.hnd[e.d] = 0])
    [] e.o = "cat" -> Cat(S, e)
    [] e.o = "iadd" -> IAdd(S, e)
    [] e.o = "setrg" -> IF e.n = 1 /\ IsInt(Obj(S, e.a).dt) THEN Throw(S)
                        ELSE IF e.n = 1 /\ S.sto[Obj(S, e.a).s].fam = GradFam THEN Tell(S, 3)
                        ELSE Ok([S EXCEPT !.obj[S.hnd[e.a]].rg = e.n])
    [] e.o = "setrt" -> Ok([S EXCEPT !.obj[S.hnd[e.a]].rt = e.n])
    [] e.o = "zerog" -> LET x == Obj(S, e.a)
                        IN IF x.gr.h # 1 THEN Ok(S)
                           ELSE Ok(GradsWritten([S EXCEPT !.obj[S.hnd[e.a]].gr.v = Fresh(N(x), Zero)]))
    [] e.o = "back" -> LET x == Obj(S, e.a)
                       IN IF x.rg = 0 \/ x.fn.op = "none" \/ N(x) # 1 THEN Throw(S)
                          ELSE Ok(GradsWritten(Backward(S, S.hnd[e.a])))
    [] e.o = "gcopy" -> LET x == Obj(S, e.a)
                        IN IF N(x) = 0 THEN Tell(S, 3)
                           ELSE IF x.gr.h = 0 THEN Tell(S, 2)
                           ELSE IF x.gr.h = 2 THEN Tell(S, 3)
                           ELSE Ok(Put(S, e.d, x.dt, x.sz, x.gr.v, 0, None))
    [] e.o = "ghold" -> LET x == Obj(S, e.a)        \* a handle of the gradient itself
                        IN IF N(x) = 0 THEN Tell(S, 3)
                           ELSE IF x.gr.h = 0 THEN Tell(S, 2)
                           ELSE IF x.gr.h = 2 THEN Tell(S, 3)
                           ELSE Ok(PutFam(S, e.d, x.dt, x.sz, x.gr.v, 0, None, GradFam, 0))
    [] e.o = "all" -> LET v == Vals(S, Obj(S, e.a))
                      IN Ret(S, IF \E k \in 1..Len(v) : v[k] = Zero THEN 0
                                ELSE IF \E k \in 1..Len(v) : ~SurelyNot0(v[k]) THEN 2 ELSE 1)
    [] e.o = "show" -> Ret(S, Tokens(Obj(S, e.a).sz))
    [] e.o \in {"soak", "mem"} -> Ret(S, 0)
    \* chains and fans of e.n results, see the executor: the gradient of the leaf
    [] e.o = "deep" -> Ret(S, CASE e.k = 0 -> e.n + 1
                                [] e.k = 2 -> 2 * e.n
                                [] e.k = 4 -> FoldLeft(LAMBDA a, i : 2 * a, 1, Iota(e.n))
                                [] e.k = 5 -> 0
                                [] e.k = 6 -> e.n + 1
                                [] e.k \in {7, 8} -> 3 * e.n
                                [] OTHER -> 1)
    [] e.o \in {"randstat", "rel"} -> Ret(S, 1)
=============================================================================
