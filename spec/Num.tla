-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Numbers of the INNC model.                                              *)
(*                                                                         *)
(* A number is a triple <<n, d, t>>: the rational n/d in lowest terms,     *)
(* d >= 1, together with a flag t.                                         *)
(*   t = 0  exact: d is a power of two and the implementation has to hold  *)
(*          exactly this value.                                            *)
(*   t > 0  rounded: some operation on the way is not exact in binary      *)
(*          floating point (1/3), so the implementation holds this value   *)
(*          up to t millionths.                                            *)
(* U = <<0, 0, 1>> is "not determined by this model": the value leaves the *)
(* range TLC can compute in (|n| <= 2^30), or its error bound is too large *)
(* to be of use, or the C++ standard or the                                *)
(* library leaves it open (integer overflow, NaN, overlapping operands).   *)
(* Every operation on U is U, and U matches any observation.               *)
(* Nan, PInf and NInf are those of IEEE arithmetic; Inf is an infinity of  *)
(* unknown sign (the sign of zero is not modelled, except for the zeros of *)
(* constructors, see INNC!Binary).                                         *)
(*                                                                         *)
(* Types are numbered as in the library:                                   *)
(*   0 i8, 1 i16, 2 i32, 3 i64, 4 f32, 5 f64                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

U == <<0, 0, 1>>
Nan == <<0, 0, 0>>
PInf == <<1, 0, 0>>
NInf == <<-1, 0, 0>>
Inf == <<2, 0, 0>>
IsInf(x) == x[2] = 0 /\ x[1] # 0
MaxN == 1073741824          \* 2^30
MaxD == 1048576             \* 2^20
Pow2 == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192,
         16384, 32768, 65536, 131072, 262144, 524288, 1048576}

DTypes == 0..5
IsInt(dt) == dt < 4
IsFloat(dt) == dt >= 4
Larger(s, t) == IF s >= t THEN s ELSE t

Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

IntN(n) == <<n, 1, 0>>
Zero == <<0, 1, 0>>
One == <<1, 1, 0>>

ErrMax == 20000
Mag(n, d) == Abs(n) \div d + 1               \* an upper bound of |n/d|
Eps(n, d) == Mag(n, d) \div 8 + 1            \* of the error of rounding n/d to 24 bits

\* n/d in lowest terms with error t
Fin(n, d, t) == IF Abs(n) > MaxN \/ d > MaxD \/ t > ErrMax THEN U ELSE <<n, d, t>>
\* n/d (d >= 1) as the result of one operation whose operands contribute the error t
Mk(n, d, t) ==
  IF d = 1
  THEN Fin(n, 1, IF t = 0 THEN 0 ELSE t + Eps(n, 1))
  ELSE LET g == Gcd(Abs(n), d)
           m == n \div g
           e == d \div g
       IN Fin(m, e, IF t = 0 /\ e \in Pow2 THEN 0 ELSE t + Eps(m, e))

Neg(x) == IF x[2] = 0 /\ x # PInf /\ x # NInf THEN x ELSE <<-x[1], x[2], x[3]>>
IsU(x) == x[2] = 0 /\ x[3] = 1
Special(x) == x[2] = 0
Max2(a, b) == IF a >= b THEN a ELSE b

Add(x, y) ==
  IF x[2] = 1 /\ y[2] = 1 /\ x[3] = 0 /\ y[3] = 0
  THEN LET n == x[1] + y[1] IN IF Abs(n) > MaxN THEN U ELSE <<n, 1, 0>>
  ELSE IF IsU(x) \/ IsU(y) THEN U
  ELSE IF x = Nan \/ y = Nan THEN Nan
  ELSE IF IsInf(x) /\ IsInf(y) THEN IF x = Inf \/ y = Inf THEN U ELSE IF x = y THEN x ELSE Nan
  ELSE IF IsInf(x) THEN x
  ELSE IF IsInf(y) THEN y
  ELSE LET g == Gcd(x[2], y[2])
           p == y[2] \div g            \* factor for x
           q == x[2] \div g            \* factor for y
       IN IF x[2] > MaxN \div p \/ Abs(x[1]) > MaxN \div p \/ Abs(y[1]) > MaxN \div q
          THEN U
          ELSE Mk(x[1] * p + y[1] * q, x[2] * p, x[3] + y[3])

Sub(x, y) == Add(x, Neg(y))

\* a factor times an error bound, saturating
Scale(m, t) == IF t = 0 THEN 0 ELSE IF m > 20000 THEN ErrMax + 1 ELSE m * t

Mul(x, y) ==
  IF IsU(x) \/ IsU(y) THEN U
  ELSE IF x = Nan \/ y = Nan THEN Nan
  ELSE IF IsInf(x) \/ IsInf(y)
  THEN IF x = Zero \/ y = Zero THEN Nan ELSE IF x[1] = 0 \/ y[1] = 0 THEN U
       ELSE IF x = Inf \/ y = Inf \/ x[3] > 0 \/ y[3] > 0 THEN Inf
       ELSE IF (x[1] > 0) = (y[1] > 0) THEN PInf ELSE NInf
  ELSE IF x = Zero \/ y = Zero THEN Zero
  ELSE LET t == IF x[3] = 0 /\ y[3] = 0 THEN 0
                ELSE Scale(Mag(x[1], x[2]), y[3]) + Scale(Mag(y[1], y[2]), x[3]) + 1
       IN IF x[1] = 0 \/ y[1] = 0 THEN Fin(0, 1, t)
          ELSE IF Abs(x[1]) > MaxN \div Abs(y[1]) \/ x[2] > MaxN \div y[2] THEN U
          ELSE Mk(x[1] * y[1], x[2] * y[2], t)

\* floating point division; a quotient that happens to be exact is exact
Div(x, y) ==
  IF IsU(x) \/ IsU(y) THEN U
  ELSE IF x = Nan \/ y = Nan THEN Nan
  ELSE IF IsInf(y) THEN IF IsInf(x) THEN Nan ELSE Zero
  ELSE IF y[1] = 0 THEN IF y # Zero \/ (x[1] = 0 /\ x # Zero) THEN U ELSE IF x = Zero THEN Nan ELSE Inf
  ELSE IF IsInf(x) THEN IF x = Inf \/ y[3] > 0 THEN Inf ELSE IF y[1] > 0 THEN x ELSE Neg(x)
  ELSE IF x = Zero /\ y[3] = 0 THEN Zero
  ELSE IF Abs(x[1]) > MaxN \div y[2] \/ x[2] > MaxN \div Abs(y[1]) THEN U
  ELSE LET n == IF y[1] > 0 THEN x[1] * y[2] ELSE -(x[1] * y[2])
           d == x[2] * Abs(y[1])
           r == y[2] \div Abs(y[1]) + 1          \* bounds 1/|y|
           t == IF x[3] = 0 /\ y[3] = 0 THEN 0
                ELSE IF Scale(r, y[3]) > 100000 THEN ErrMax + 1     \* y may be 0
                ELSE Scale(2 * r, Fin(0, 1, x[3] + Scale(Mag(n, d), y[3]))[3])
       IN IF x[3] + Scale(Mag(n, d), y[3]) > ErrMax THEN U ELSE Mk(n, d, t)

\* C++ integer division, truncating toward zero (m # 0)
TDiv(n, m) == LET q == Abs(n) \div Abs(m) IN IF (n < 0) = (m < 0) THEN q ELSE -q

\* a number written as i + f/10^6, f a multiple of 1/64; f = -1: NaN if i = 0, else infinite
Given(i, f) == IF f = -1 THEN (IF i = 0 THEN Nan ELSE <<i, 0, 0>>) ELSE Mk(i * 64 + f \div 15625, 64, 0)
Magnitude(x) == IF IsInf(x) THEN PInf ELSE IF x[2] = 0 THEN x ELSE <<Abs(x[1]), x[2], x[3]>>
\* the sign of x as a factor; open for 0
Sgn(x) == IF x[3] > 0 \/ x[2] = 0 THEN U
          ELSE IF x[1] > 0 THEN One ELSE IF x[1] < 0 THEN Neg(One) ELSE U

\* truncation of n/d toward zero
Trunc(x) == TDiv(x[1], x[2])

\* order; only meaningful for exact numbers
Exact(x) == x[2] # 0 /\ x[3] = 0
Ordered(x) == Exact(x) \/ x = PInf \/ x = NInf         \* its place among all numbers is known
SignedInf(x) == IF x[3] > 0 \/ x = Inf THEN Inf ELSE IF x[1] > 0 THEN PInf ELSE NInf      \* with the sign of x # 0
SurelyNot0(x) == x = Nan \/ IsInf(x) \/ (Exact(x) /\ x[1] # 0)
Cmp(x, y) == \* sign of x - y, without overflow: compare integer parts, then fractions
  LET a == x[1] \div x[2]  b == y[1] \div y[2]
      r == x[1] % x[2]     s == y[1] % y[2]
  IN IF x = y THEN 0
     ELSE IF x = PInf \/ y = NInf THEN 1
     ELSE IF x = NInf \/ y = PInf THEN -1
     ELSE IF a # b THEN IF a < b THEN -1 ELSE 1
     ELSE LET u == IF x[2] >= y[2] THEN r ELSE r * (y[2] \div x[2])
              v == IF y[2] >= x[2] THEN s ELSE s * (x[2] \div y[2])
          IN IF u < v THEN -1 ELSE IF u > v THEN 1 ELSE 0

(***************************************************************************)
(* Storing into a type                                                     *)
(***************************************************************************)
Wrap(n, m) == LET r == (n + m) % (2 * m) IN r - m      \* two's complement, m = 2^(bits-1)

RECURSIVE RoundBits(_, _)
\* round |n| >= 2^24 to 24 significant bits, ties to even: returns a multiple of s
RoundBits(n, s) ==
  IF n \div s < 16777216
  THEN LET q == n \div s  r == n % s  h == s \div 2
       IN (IF r > h \/ (r = h /\ q % 2 = 1) THEN q + 1 ELSE q) * s
  ELSE RoundBits(n, 2 * s)

F32(x) == IF x[3] > 0 \/ Abs(x[1]) < 16777216 THEN x
          ELSE LET r == RoundBits(Abs(x[1]), 1)
               IN Mk(IF x[1] < 0 THEN -r ELSE r, x[2], 0)

FitsF32(x) == F32(x) = x

\* the result of integer arithmetic, stored in integer type dt
StoreI(dt, x) ==
  IF IsU(x) THEN U
  ELSE CASE dt = 0 -> IntN(Wrap(x[1], 128))
         [] dt = 1 -> IntN(Wrap(x[1], 32768))
         [] OTHER  -> x

\* a floating point value stored in type dt
StoreF(dt, x) ==
  IF IsU(x) THEN U
  ELSE CASE dt = 5 -> x
         [] dt = 4 -> F32(x)
         [] OTHER  -> IF x[3] > 0 \/ Special(x) THEN U
                      ELSE LET n == Trunc(x)
                           IN IF (dt = 0 /\ (n < -128 \/ n > 127))
                                 \/ (dt = 1 /\ (n < -32768 \/ n > 32767))
                              THEN U         \* undefined in C++
                              ELSE IntN(n)

\* a value stored in a gradient of type dt, whatever the order of the operations that led to it
GStore(dt, x) ==
  IF x[2] = 0 \/ dt = 5 \/ FitsF32(x) THEN x
  ELSE Fin(x[1], x[2], x[3] + Eps(x[1], x[2]))

\* y, itself a sum of c numbers, added to a gradient x of type dt: in one step, or number by number
GAdd(dt, x, y, c) ==
  LET s == Add(x, y)
      most == 2097152 \div Max2(x[2], Max2(y[2], s[2]))
      e == Mag(x[1], x[2]) \div 8 + Mag(y[1], y[2]) \div 8 + 1
  IN IF x[2] = 0 \/ y[2] = 0 \/ s[2] = 0 \/ dt = 5 THEN s
     ELSE IF s[3] = 0 /\ Mag(x[1], x[2]) < most /\ Mag(y[1], y[2]) < most THEN s
     ELSE Fin(s[1], s[2], IF c > 20000 \/ e > 20000 THEN ErrMax + 1 ELSE s[3] + c * e)

\* one step of a sum over elements of type dt, and the sum
SumStep(dt, x, y) == Add(x, y)
SumEnd(dt, x) == x

\* conversion of a value of type from into type dt
Conv(dt, from, x) == IF IsInt(from) /\ IsInt(dt) THEN StoreI(dt, x) ELSE StoreF(dt, x)

\* an operand of a binary operation computed in type c
Operand(c, from, x) ==
  IF c = 4 /\ IsInt(from) /\ ~IsU(x) /\ ~FitsF32(x) THEN U ELSE x

Arith(op, c, x, y) ==   \* c: the common type
  IF IsInt(c)
  THEN StoreI(c, CASE op = "add" -> Add(x, y)
                   [] op = "sub" -> Sub(x, y)
                   [] op = "mul" -> Mul(x, y)
                   [] op = "div" -> IF IsU(x) \/ IsU(y) \/ y[1] = 0 THEN U
                                    ELSE IntN(TDiv(x[1], y[1])))
  ELSE StoreF(c, CASE op = "add" -> Add(x, y)
                   [] op = "sub" -> Sub(x, y)
                   [] op = "mul" -> Mul(x, y)
                   [] op = "div" -> Div(x, y))

Compare(op, x, y) ==
  IF IsU(x) \/ IsU(y) THEN U
  ELSE IF x = Nan \/ y = Nan \/ IsInf(x) # IsInf(y)
  THEN IF op = "ne" THEN One ELSE IF op = "eq" \/ x = Nan \/ y = Nan THEN Zero
       ELSE IF x = Inf \/ y = Inf THEN U
       ELSE IF (x = NInf \/ y = PInf) = (op \in {"lt", "le"}) THEN One ELSE Zero
  ELSE IF ~Ordered(x) \/ ~Ordered(y) THEN U
  ELSE LET c == Cmp(x, y)
           r == CASE op = "lt" -> c < 0
                  [] op = "gt" -> c > 0
                  [] op = "le" -> c <= 0
                  [] op = "ge" -> c >= 0
                  [] op = "eq" -> c = 0
                  [] op = "ne" -> c # 0
       IN IF r THEN One ELSE Zero

(***************************************************************************)
(* Observations.  The library prints integers in full and floating point   *)
(* numbers with six decimals; the observation of a number is the pair      *)
(* (i, f) with value i + f/10^6, 0 <= f < 10^6; f = -1: NaN if i = 0, else *)
(* infinite; f = -2: beyond 2^30.                                          *)
(***************************************************************************)
Matches(x, i, f) ==
  IF x[2] = 0 THEN IsU(x) \/ (f = -1 /\ (IF x = Inf THEN i # 0 ELSE i = x[1]))
  ELSE IF x[2] = 1 /\ x[3] = 0 THEN i = x[1] /\ f = 0
  ELSE LET d == x[2]
           ei == x[1] \div d
           r == x[1] % d
       IN IF x[3] = 0 /\ d <= 64
          THEN i = ei /\ f = r * (1000000 \div d)
          ELSE LET a == r * 1000
                   ef == (a \div d) * 1000 + (((a % d) * 1000) \div d)
               IN /\ f >= 0
                  /\ Abs(i - ei) <= 100
                  /\ Abs((i - ei) * 1000000 + (f - ef)) <= x[3] + 1

Same(x, y) ==          \* two numbers that may look the same
  IF x = y \/ IsU(x) \/ IsU(y) THEN TRUE
  ELSE IF x[2] = 0 \/ y[2] = 0 THEN IsInf(x) /\ IsInf(y) /\ (x = Inf \/ y = Inf)
  ELSE
     LET e == Sub(<<x[1], x[2], 0>>, <<y[1], y[2], 0>>)
         n == Abs(e[1])  d == e[2]
     IN \/ d = 0
        \/ /\ n \div d <= 1
           /\ LET m == n * 1000 IN (m \div d) * 1000 + ((m % d) * 1000) \div d <= x[3] + y[3] + (IF d > 64 THEN 1 ELSE 0)
=============================================================================
