------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Shapes, index arithmetic, slices and broadcasting.                      *)
(* A shape is a sequence of naturals.  The elements of a tensor are        *)
(* numbered 1..Numel(shape) in row-major order.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Numel(sz) == FoldLeft(LAMBDA a, b : a * b, 1, sz)

\* row-major strides
Canon(sz) == [i \in 1..Len(sz) |-> Numel(SubSeq(sz, i + 1, Len(sz)))]

\* the row-major sequence of off + sum of index * stride
Walk(sz, sr, off) ==
  FoldLeft(LAMBDA acc, i :
             LET s == sz[i]  w == sr[i]
             IN TLCEval([k \in 1..(Len(acc) * s) |-> acc[((k - 1) \div s) + 1] + ((k - 1) % s) * w]),
           <<off>>, [i \in 1..Len(sz) |-> i])

Iota(n) == [k \in 1..n |-> k]

(***************************************************************************)
(* Broadcasting: shapes are aligned at the right; two extents agree if     *)
(* they are equal or one of them is 1 (and the other is not 0).            *)
(***************************************************************************)
Ext(sz, n, i) == LET j == i - (n - Len(sz)) IN IF j >= 1 THEN sz[j] ELSE 1  \* extent i of sz padded to n dims
MaxLen(u, v) == IF Len(u) >= Len(v) THEN Len(u) ELSE Len(v)

Broadcastable(u, v) ==
  LET m == IF Len(u) <= Len(v) THEN Len(u) ELSE Len(v)
  IN \A k \in 0..(m - 1) :
       LET a == u[Len(u) - k]  b == v[Len(v) - k]
       IN a = b \/ (a = 1 /\ b > 0) \/ (b = 1 /\ a > 0)

Broadcast(u, v) ==
  LET n == MaxLen(u, v)
  IN [i \in 1..n |-> LET a == Ext(u, n, i)  b == Ext(v, n, i)
                     IN IF i <= n - Len(u) THEN b ELSE IF i <= n - Len(v) THEN a
                        ELSE IF a >= b THEN a ELSE b]

\* element k of the result (shape osz) reads element BMap[k] of an operand of shape isz
BMap(osz, isz) ==
  IF osz = isz THEN Iota(Numel(osz))
  ELSE LET c == Canon(isz)  o == Len(osz) - Len(isz)
       IN Walk(osz, [i \in 1..Len(osz) |-> IF i <= o THEN 0
                                            ELSE IF isz[i - o] = 1 THEN 0 ELSE c[i - o]], 1)

(***************************************************************************)
(* Slices, as in Python.  One entry per leading dimension:                 *)
(*   <<0, i>>                     an index, the dimension disappears       *)
(*   <<1, hb, b, he, e, hs, s>>   b:e:s, hb/he/hs = 1 iff present          *)
(* Dimensions without an entry are taken whole.                            *)
(***************************************************************************)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

\* Python's slice(b, e, s).indices(n), and the number of elements selected
SliceStart(n, f) ==
  LET s == IF f[6] = 1 THEN f[7] ELSE 1
      lo == IF s > 0 THEN 0 ELSE -1
      hi == IF s > 0 THEN n ELSE n - 1
  IN IF f[2] = 0 THEN IF s > 0 THEN lo ELSE hi
     ELSE Clamp(IF f[3] < 0 THEN f[3] + n ELSE f[3], lo, hi)
SliceStop(n, f) ==
  LET s == IF f[6] = 1 THEN f[7] ELSE 1
      lo == IF s > 0 THEN 0 ELSE -1
      hi == IF s > 0 THEN n ELSE n - 1
  IN IF f[4] = 0 THEN IF s > 0 THEN hi ELSE lo
     ELSE Clamp(IF f[5] < 0 THEN f[5] + n ELSE f[5], lo, hi)
SliceStep(f) == IF f[6] = 1 THEN f[7] ELSE 1
SliceLen(n, f) ==
  LET b == SliceStart(n, f)  e == SliceStop(n, f)  s == SliceStep(f)
  IN IF s > 0 THEN IF b < e THEN ((e - b - 1) \div s) + 1 ELSE 0
              ELSE IF b > e THEN ((b - e - 1) \div (-s)) + 1 ELSE 0

SliceFields(sz, fs) == [i \in 1..Len(sz) |-> IF i <= Len(fs) THEN fs[i] ELSE <<1, 0, 0, 0, 0, 0, 0>>]

SliceValid(sz, fs) ==
  /\ Len(fs) <= Len(sz)
  /\ \A i \in 1..Len(fs) :
       IF fs[i][1] = 0 THEN -sz[i] <= fs[i][2] /\ fs[i][2] < sz[i]
                       ELSE ~(fs[i][6] = 1 /\ fs[i][7] = 0)

\* the shape of the slice, and the elements of the operand it consists of
SliceShape(sz, fs) ==
  LET g == SliceFields(sz, fs)
      kept == SelectSeq(Iota(Len(sz)), LAMBDA i : g[i][1] = 1)
  IN [j \in 1..Len(kept) |-> SliceLen(sz[kept[j]], g[kept[j]])]
SliceMap(sz, fs) ==
  LET g == SliceFields(sz, fs)
      c == Canon(sz)
      kept == SelectSeq(Iota(Len(sz)), LAMBDA i : g[i][1] = 1)
      first == FoldLeft(LAMBDA a, i :
                  a + c[i] * (IF g[i][1] = 0 THEN IF g[i][2] < 0 THEN g[i][2] + sz[i] ELSE g[i][2]
                              ELSE SliceStart(sz[i], g[i])), 1, Iota(Len(sz)))
  IN Walk([j \in 1..Len(kept) |-> SliceLen(sz[kept[j]], g[kept[j]])],
          [j \in 1..Len(kept) |-> IF SliceLen(sz[kept[j]], g[kept[j]]) <= 1 THEN 1 ELSE c[kept[j]] * SliceStep(g[kept[j]])], first)

(***************************************************************************)
(* The text of a slice, a sequence of character codes:                     *)
(*   text  = "" | part {"," part}                                          *)
(*   part  = "" | int | [int] ":" [int] [":" [int]]                        *)
(*   int   = ["+" | "-"] digit {digit}                                     *)
(* with spaces around each int and part.  An empty part is the whole       *)
(* dimension.  Anything else is malformed; whether a part of nothing but   *)
(* spaces is, is left open.                                                *)
(***************************************************************************)
Blank == 32
Comma == 44
Colon == 58
Plus == 43
Minus == 45
Digit(ch) == 48 <= ch /\ ch <= 57
\* the pieces between the separators, at least one
Pieces(txt, sep) ==
  FoldLeft(LAMBDA a, ch : IF ch = sep THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, ch)], <<<<>>>>, txt)
Trim(txt) ==
  LET ink == {i \in 1..Len(txt) : txt[i] \notin {Blank, 9}}
  IN IF ink = {} THEN <<>>
     ELSE SubSeq(txt, CHOOSE i \in ink : \A j \in ink : i <= j, CHOOSE i \in ink : \A j \in ink : i >= j)
IsNumeral(w) ==
  LET d == IF w # <<>> /\ w[1] \in {Plus, Minus} THEN Tail(w) ELSE w
  IN d # <<>> /\ \A i \in 1..Len(d) : Digit(d[i])
Numeral(w) ==
  LET n == FoldLeft(LAMBDA a, ch : IF Digit(ch) THEN 10 * a + ch - 48 ELSE a, 0, w)
  IN IF w[1] = Minus THEN -n ELSE n
PartFields(part) == LET q == Pieces(part, Colon) IN [i \in 1..Len(q) |-> Trim(q[i])]
PartGood(part) ==
  LET q == PartFields(part)
  IN part = <<>> \/ IF Len(q) = 1 THEN IsNumeral(q[1]) ELSE Len(q) <= 3 /\ \A i \in 1..Len(q) : q[i] = <<>> \/ IsNumeral(q[i])
Part(part) ==
  LET q == PartFields(part)
      has(i) == IF i <= Len(q) /\ q[i] # <<>> THEN 1 ELSE 0
      val(i) == IF has(i) = 1 THEN Numeral(q[i]) ELSE 0
  IN IF part = <<>> THEN <<1, 0, 0, 0, 0, 0, 0>>
     ELSE IF Len(q) = 1 THEN <<0, val(1)>>
     ELSE <<1, has(1), val(1), has(2), val(2), has(3), val(3)>>
Parts(txt) == IF txt = <<>> THEN <<>> ELSE Pieces(txt, Comma)
TextGood(txt) == LET ps == Parts(txt) IN \A i \in 1..Len(ps) : PartGood(ps[i])
TextOpen(txt) == LET ps == Parts(txt) IN \E i \in 1..Len(ps) : ps[i] # <<>> /\ Trim(ps[i]) = <<>>
TextSlice(txt) == LET ps == Parts(txt) IN [i \in 1..Len(ps) |-> Part(ps[i])]

(***************************************************************************)
(* Transposition of dimensions i and j (numbered from 0)                   *)
(***************************************************************************)
SwapAt(s, i, j) == [s EXCEPT ![i + 1] = s[j + 1], ![j + 1] = s[i + 1]]
TransposeValid(sz, i, j) == i # j /\ i < Len(sz) /\ j < Len(sz)
TransposeMap(sz, i, j) == Walk(SwapAt(sz, i, j), SwapAt(Canon(sz), i, j), 1)

(***************************************************************************)
(* Reshape: the requested sizes may contain one -1                         *)
(***************************************************************************)
\* Extents from 10^9 on stand for numbers of 2^32 and more (see to_size in the executor); a shape that has one of them
\* and no 0 has more elements than can be counted.
TooMany(z) == (\A i \in 1..Len(z) : z[i] # 0) /\ \E i \in 1..Len(z) : z[i] >= 1000000000
ReshapeValid(n, req) ==
  LET known == SelectSeq(req, LAMBDA x : x # -1)
      p == Numel(known)
  IN /\ ~TooMany(req)
     /\ \A i \in 1..Len(req) : req[i] >= -1
     /\ Len(req) - Len(known) <= 1
     /\ IF Len(known) = Len(req) THEN p = n ELSE p # 0 /\ n % p = 0
ReshapeShape(n, req) ==
  LET p == Numel(SelectSeq(req, LAMBDA x : x # -1))
  IN [i \in 1..Len(req) |-> IF req[i] = -1 THEN n \div p ELSE req[i]]

(***************************************************************************)
(* Concatenation along dimension dim (numbered from 0)                     *)
(***************************************************************************)
CatValid(szs, dim) ==
  /\ Len(szs) > 0
  /\ dim < Len(szs[1])
  /\ \A k \in 2..Len(szs) : /\ Len(szs[k]) = Len(szs[1])
                            /\ \A i \in 1..Len(szs[1]) : i = dim + 1 \/ szs[k][i] = szs[1][i]
CatShape(szs, dim) ==
  [i \in 1..Len(szs[1]) |-> IF i = dim + 1
                            THEN FoldLeft(LAMBDA a, s : a + s[i], 0, szs) ELSE szs[1][i]]
\* element j of operand k is element CatMap(szs, dim, k)[j] of the result
CatMap(szs, dim, k) ==
  LET c == Canon(CatShape(szs, dim))
      before == FoldLeft(LAMBDA a, s : a + s[dim + 1], 0, SubSeq(szs, 1, k - 1))
  IN Walk(szs[k], c, 1 + before * c[dim + 1])
=============================================================================
