-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* The numbers of the INNC model, for values up to the extremes of i64.    *)
(* It takes the place of ../Num.tla (see WTrace.tla), with the same        *)
(* operators: integers of any size, and what IEEE rounding to 24 and 53    *)
(* bits makes of them; fractions are left open.                            *)
(*                                                                         *)
(* A number is <<s, l>>: the sign s (-1, 0, 1) and the decimal digits in   *)
(* groups of four, the lowest first, without leading zeros.                *)
(* U is "not determined": fractions, results beyond the type (undefined    *)
(* for i32 and i64 arithmetic in C++) and beyond 10^36.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Pow

U == <<2, <<>>>>
Nan == <<3, <<>>>>
Inf == <<4, <<>>>>
Zero == <<0, <<>>>>
One == <<1, <<1>>>>
Base == 10000
MaxLimbs == 9

DTypes == 0..5
IsInt(dt) == dt < 4
IsFloat(dt) == dt >= 4
Larger(s, t) == IF s >= t THEN s ELSE t
Abs(n) == IF n < 0 THEN -n ELSE n

IsU(x) == x[1] = 2
Special(x) == x[1] > 1
Exact(x) == x[1] <= 1
Ordered(x) == Exact(x)
SurelyNot0(x) == x = Nan \/ x = Inf \/ (Exact(x) /\ x # Zero)
\* an infinity whose sign is known
SignedInf(x) == Inf

(***************************************************************************)
(* Naturals as sequences of limbs                                          *)
(***************************************************************************)
RECURSIVE Strip(_)
Strip(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Strip(SubSeq(a, 1, Len(a) - 1))
At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
MaxL(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)
Upto(n) == [k \in 1..n |-> k]

\* carries (or borrows) through a sequence of any integers whose total is not negative
Carry(a) ==
  LET r == FoldLeft(LAMBDA acc, x : LET t == x + acc[2] IN <<Append(acc[1], t % Base), t \div Base>>, <<<<>>, 0>>, a)
      c == r[2]
  IN TLCEval(Strip(r[1] \o <<c % Base, (c \div Base) % Base, c \div (Base * Base)>>))

NAdd(a, b) == Carry([i \in 1..MaxL(a, b) |-> At(a, i) + At(b, i)])
NSub(a, b) == Carry([i \in 1..MaxL(a, b) |-> At(a, i) - At(b, i)])       \* a >= b
RECURSIVE NCmpFrom(_, _, _)
NCmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] # b[i] THEN IF a[i] < b[i] THEN -1 ELSE 1 ELSE NCmpFrom(a, b, i - 1)
NCmp(a, b) == IF Len(a) # Len(b) THEN IF Len(a) < Len(b) THEN -1 ELSE 1 ELSE NCmpFrom(a, b, Len(a))
NMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE Carry([k \in 1..(Len(a) + Len(b) - 1) |->
         FoldLeft(LAMBDA t, i : IF k - i + 1 >= 1 /\ k - i + 1 <= Len(b) THEN t + a[i] * b[k - i + 1] ELSE t, 0, Upto(Len(a)))])
NSmall(a, m) == IF m = 0 THEN <<>> ELSE Carry([i \in 1..Len(a) |-> a[i] * m])

\* the largest digit q in lo..hi with q * b <= r
RECURSIVE Digit(_, _, _, _)
Digit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF NCmp(NSmall(b, m), r) <= 0 THEN Digit(r, b, m, hi) ELSE Digit(r, b, lo, m - 1)
\* quotient and remainder, b # 0
NDivMod(a, b) ==
  IF NCmp(a, b) < 0 THEN <<<<>>, a>>
  ELSE LET r == FoldLeft(LAMBDA acc, k :
                  LET x == Strip(<<a[Len(a) + 1 - k]>> \o acc[2])
                      q == IF NCmp(x, b) < 0 THEN 0 ELSE Digit(x, b, 1, Base - 1)
                  IN TLCEval(<<<<q>> \o acc[1], IF q = 0 THEN x ELSE NSub(x, NSmall(b, q))>>),
                  <<<<>>, <<>>>>, Upto(Len(a)))
       IN <<Strip(r[1]), r[2]>>

Two(k) == Table[k + 1]
IsOdd(a) == a # <<>> /\ a[1] % 2 = 1

(***************************************************************************)
(* Integers                                                                *)
(***************************************************************************)
Num(s, l) == IF l = <<>> THEN Zero ELSE IF Len(l) > MaxLimbs THEN U ELSE <<s, l>>
IntN(n) == Num(IF n < 0 THEN -1 ELSE 1, Carry(<<Abs(n)>>))
Neg(x) == IF Special(x) THEN x ELSE <<-x[1], x[2]>>
Magnitude(x) == IF Special(x) THEN x ELSE <<Abs(x[1]), x[2]>>
Sgn(x) == IF Special(x) \/ x[1] = 0 THEN U ELSE <<x[1], <<1>>>>
Given(i, f) == IF i[1] = 0 THEN Zero ELSE <<i[1], SubSeq(i, 2, Len(i))>>

Cmp(x, y) == IF x[1] # y[1] THEN IF x[1] < y[1] THEN -1 ELSE 1
             ELSE IF x[1] >= 0 THEN NCmp(x[2], y[2]) ELSE -NCmp(x[2], y[2])

Add(x, y) ==
  IF IsU(x) \/ IsU(y) THEN U
  ELSE IF x = Nan \/ y = Nan THEN Nan
  ELSE IF x = Inf \/ y = Inf THEN IF x = y THEN U ELSE Inf
  ELSE IF x = Zero THEN y ELSE IF y = Zero THEN x
  ELSE IF x[1] = y[1] THEN Num(x[1], NAdd(x[2], y[2]))
  ELSE LET c == NCmp(x[2], y[2])
       IN IF c = 0 THEN Zero ELSE IF c > 0 THEN Num(x[1], NSub(x[2], y[2])) ELSE Num(y[1], NSub(y[2], x[2]))
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) ==
  IF IsU(x) \/ IsU(y) THEN U
  ELSE IF x = Nan \/ y = Nan THEN Nan
  ELSE IF x = Inf \/ y = Inf THEN IF x = Zero \/ y = Zero THEN Nan ELSE Inf
  ELSE IF x = Zero \/ y = Zero THEN Zero
  ELSE Num(x[1] * y[1], NMul(x[2], y[2]))
TDiv(x, y) == Num(x[1] * y[1], NDivMod(x[2], y[2])[1])          \* toward zero, y # 0
\* floating point division, where it is exact
Div(x, y) ==
  IF IsU(x) \/ IsU(y) THEN U
  ELSE IF x = Nan \/ y = Nan THEN Nan
  ELSE IF y = Inf THEN IF x = Inf THEN Nan ELSE Zero
  ELSE IF y = Zero THEN IF x = Zero THEN Nan ELSE Inf
  ELSE IF x = Inf THEN Inf ELSE IF x = Zero THEN Zero
  ELSE LET r == NDivMod(x[2], y[2]) IN IF r[2] = <<>> THEN Num(x[1] * y[1], r[1]) ELSE U

(***************************************************************************)
(* Storing into a type                                                     *)
(***************************************************************************)
Bits(dt) == <<8, 16, 32, 64>>[dt + 1]
Fits(dt, x) == IF x[1] >= 0 THEN NCmp(x[2], Two(Bits(dt) - 1)) < 0 ELSE NCmp(x[2], Two(Bits(dt) - 1)) <= 0
\* two's complement
Wrap(dt, x) ==
  IF Special(x) THEN U
  ELSE IF Fits(dt, x) THEN x
  ELSE LET m == Two(Bits(dt))
           r == NDivMod(x[2], m)[2]
           p == IF x[1] > 0 \/ r = <<>> THEN r ELSE NSub(m, r)      \* in 0 .. 2^bits - 1
       IN IF NCmp(p, Two(Bits(dt) - 1)) < 0 THEN Num(1, p) ELSE Num(-1, NSub(m, p))

\* to p significant bits, ties to even
RECURSIVE Excess(_, _, _)
Excess(a, p, k) == IF NCmp(a, Two(p + k)) < 0 THEN k ELSE Excess(a, p, k + 1)
Round(p, x) ==
  IF Special(x) \/ NCmp(x[2], Two(p)) <= 0 THEN x
  ELSE LET k == Excess(x[2], p, 1)
           d == NDivMod(x[2], Two(k))
           h == NCmp(d[2], Two(k - 1))
           q == IF h > 0 \/ (h = 0 /\ IsOdd(d[1])) THEN NAdd(d[1], <<1>>) ELSE d[1]
       IN Num(x[1], NMul(q, Two(k)))
Prec(dt) == IF dt = 4 THEN 24 ELSE 53

\* the result of integer arithmetic: i8 and i16 wrap, i32 and i64 may not overflow
StoreI(dt, x) == IF Special(x) THEN U ELSE IF Fits(dt, x) THEN x ELSE IF dt < 2 THEN Wrap(dt, x) ELSE U
StoreF(dt, x) == IF IsFloat(dt) THEN Round(Prec(dt), x)
                 ELSE IF Special(x) THEN U ELSE IF Fits(dt, x) THEN x ELSE U
GStore(dt, x) == IF Special(x) THEN x ELSE IF Round(Prec(dt), x) = x THEN x ELSE U
\* one step of a sum over elements of type dt
GAdd(dt, x, y, c) == GStore(dt, Add(x, y))
SumStep(dt, x, y) == IF IsInt(dt) THEN Add(x, y) ELSE GStore(5, Add(x, y))
SumEnd(dt, x) == IF IsInt(dt) THEN StoreI(3, x) ELSE x
Conv(dt, from, x) == IF IsInt(from) /\ IsInt(dt) THEN Wrap(dt, x) ELSE StoreF(dt, x)
Operand(c, from, x) == IF IsFloat(c) THEN Round(Prec(c), x) ELSE x

Arith(op, c, x, y) ==
  IF IsInt(c)
  THEN StoreI(c, CASE op = "add" -> Add(x, y)
                   [] op = "sub" -> Sub(x, y)
                   [] op = "mul" -> Mul(x, y)
                   [] op = "div" -> IF Special(x) \/ Special(y) \/ y = Zero THEN U ELSE TDiv(x, y))
  ELSE StoreF(c, CASE op = "add" -> Add(x, y)
                   [] op = "sub" -> Sub(x, y)
                   [] op = "mul" -> Mul(x, y)
                   [] op = "div" -> Div(x, y))

Compare(op, x, y) ==
  IF IsU(x) \/ IsU(y) THEN U
  ELSE IF Special(x) \/ Special(y)
  THEN IF x = y /\ x = Inf THEN U ELSE IF op = "ne" THEN One ELSE IF op = "eq" \/ x = Nan \/ y = Nan THEN Zero ELSE U
  ELSE LET c == Cmp(x, y)
           r == CASE op = "lt" -> c < 0
                  [] op = "gt" -> c > 0
                  [] op = "le" -> c <= 0
                  [] op = "ge" -> c >= 0
                  [] op = "eq" -> c = 0
                  [] op = "ne" -> c # 0
       IN IF r THEN One ELSE Zero

(***************************************************************************)
(* Observations: i is the sign followed by the limbs, f the millionths     *)
(***************************************************************************)
Matches(x, i, f) ==
  IF Special(x) THEN IsU(x) \/ (f = -1 /\ ((i[1] = 0) <=> (x = Nan)))
  ELSE f = 0 /\ i = <<x[1]>> \o x[2]
Same(x, y) == x = y \/ Special(x) \/ Special(y)
=============================================================================
