-------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Programs for the real library, enumerated from the domains of the       *)
(* specification.  A program is a sequence of commands, a command a        *)
(* sequence of an operation name and numbers, in the syntax of the         *)
(* executor (harness/exec.cpp).  What each call has to do is decided by    *)
(* Trace.tla with INNC!Step; nothing here says so.                         *)
(*                                                                         *)
(*   SUITE  which suite     TIER quick | thorough     OUT  the output file *)
(*   SEED   varies the parts of a domain that quick leaves out             *)
(***************************************************************************)
EXTENDS Num, Layout, FiniteSets, Json, IOUtils

Tier == IOEnv.TIER
Thorough == Tier = "thorough"
Seed == atoi(IOEnv.SEED)

(************************** building commands ******************************)
Z(z) == <<Len(z)>> \o z
Flat(ss) == FlattenSeq(ss)
Lit(d, t, z, v) == <<"lit", d, t>> \o Z(z) \o <<Len(v)>> \o Flat([k \in 1..Len(v) |-> v[k]])
\* a tensor of shape z with distinct small values; q > 0: with quarters
Val(k, q) == IF q = 0 THEN <<((k * 7) % 11) - 5, 0>> ELSE <<((k * 7) % 11) - 5, ((k * 3) % 4) * 250000>>
Some(d, t, z, q) == Lit(d, t, z, [k \in 1..Numel(z) |-> Val(k, IF t < 4 THEN 0 ELSE q)])
Numbered(d, t, z) == Lit(d, t, z, [k \in 1..Numel(z) |-> <<k, 0>>])
Begin == <<"begin">>
Sl(d, a, style, fs) == <<"slice", d, a, style, Len(fs)>> \o Flat(fs)
Ix(i) == <<0, i>>
Rng(b, e, s) == <<1, IF b = "-" THEN 0 ELSE 1, IF b = "-" THEN 0 ELSE b,
                     IF e = "-" THEN 0 ELSE 1, IF e = "-" THEN 0 ELSE e,
                     IF s = "-" THEN 0 ELSE 1, IF s = "-" THEN 0 ELSE s>>
RngF(hb, b, he, e, hs, s) == <<1, hb, b, he, e, hs, s>>
Bin(o, d, a, b) == <<o, d, a, b>>
Un(o, d, a) == <<o, d, a>>

Ints(lo, hi) == [k \in 1..(hi - lo + 1) |-> lo + k - 1]
\* all sequences of length n over sequence s, as a sequence
RECURSIVE Tuples(_, _)
Tuples(s, n) ==
  IF n = 0 THEN <<<<>>>>
  ELSE LET t == Tuples(s, n - 1)
       IN Flat([i \in 1..Len(t) |-> [j \in 1..Len(s) |-> Append(t[i], s[j])]])
UpTo(s, n) == Flat([k \in 1..(n + 1) |-> Tuples(s, k - 1)])
Pairs(s, t) == Flat([i \in 1..Len(s) |-> [j \in 1..Len(t) |-> <<s[i], t[j]>>]])
\* every m-th element, starting at a place that depends on the seed
\* one in m, without a period that could fall in with the order of the elements
Mix(k) == LET x == ((k % 9973) * 7919 + (k \div 9973) * 4231 + Seed * 1237 + 17) % 10007 IN (x * x) % 10007
Sample(s, m) == IF m <= 1 THEN s ELSE SelectSeq([k \in 1..Len(s) |-> IF Mix(k) % m = 0 THEN s[k] ELSE <<>>], LAMBDA x : x # <<>>)
Chunk(s, n) == [k \in 1..((Len(s) + n - 1) \div n) |-> SubSeq(s, (k - 1) * n + 1, IF k * n < Len(s) THEN k * n ELSE Len(s))]

(*************************** slices ****************************************)
\* all b:e:s over a dimension of extent n, bounds from beyond both ends
Opt(lo, hi) == <<<<0, 0>>>> \o [k \in 1..(hi - lo + 1) |-> <<1, lo + k - 1>>]
Steps == <<<<0, 0>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 7>>, <<1, -1>>, <<1, -2>>, <<1, -3>>, <<1, -7>>, <<1, 0>>>>
Ranges(n) ==
  Flat([i \in 1..Len(Opt(-n - 2, n + 2)) |->
    Flat([j \in 1..Len(Opt(-n - 2, n + 2)) |->
      [k \in 1..Len(Steps) |->
        LET b == Opt(-n - 2, n + 2)[i]  e == Opt(-n - 2, n + 2)[j]  s == Steps[k]
        IN RngF(b[1], b[2], e[1], e[2], s[1], s[2])]])])
\* bounds and steps far beyond the ends; the executor writes the last two as numbers beyond 32 bits and as the ends of 64 bits
Far == 2147483647
Beyond == 1000000007
Farther == 1000000009
Indices(n) == [k \in 1..(2 * n + 5) |-> Ix(k - n - 3)] \o <<Ix(Far), Ix(-Far), Ix(Farther), Ix(-Farther)>>
FarRanges(n) ==
  LET w == <<<<0, 0>>, <<1, 1>>, <<1, -1>>, <<1, 65536>>, <<1, -256>>, <<1, Far>>, <<1, -Far>>, <<1, Beyond>>, <<1, -Beyond>>, <<1, Farther>>, <<1, -Farther>>>>
      st == <<<<0, 0>>, <<1, -1>>, <<1, 256>>, <<1, -65536>>, <<1, Far>>, <<1, -Far>>, <<1, Beyond>>, <<1, -Beyond>>, <<1, Farther>>, <<1, -Farther>>>>
  IN Flat([i \in 1..Len(w) |-> Flat([j \in 1..Len(w) |-> [k \in 1..Len(st) |-> RngF(w[i][1], w[i][2], w[j][1], w[j][2], st[k][1], st[k][2])]])])

\* the tensors that are sliced: a plain one, and views with steps and offsets
SliceBase(n, kind) ==
  CASE kind = 0 -> <<Numbered(1, 2, <<n>>)>>
    [] kind = 1 -> <<Numbered(2, 5, <<2 * n + 1>>), Sl(1, 2, 0, <<RngF(1, 1, 0, 0, 1, 2)>>)>>
    [] kind = 2 -> <<Numbered(2, 0, <<n>>), Sl(1, 2, 0, <<RngF(0, 0, 0, 0, 1, -1)>>)>>
    [] kind = 3 -> <<Numbered(2, 4, <<3, n>>), <<"transpose", 3, 2, 0, 1, 0>>, Sl(1, 3, 0, <<RngF(0, 0, 0, 0, 0, 0), Ix(1)>>)>>
    [] kind = 4 -> <<Numbered(2, 1, <<n + 2, 2>>), Sl(3, 2, 0, <<RngF(1, 1, 1, -1, 0, 0), Ix(-1)>>), <<"reshape", 1, 3, 1, -1, 0>>>>

SliceProgs(suite) ==
  Flat([nn \in 1..(IF Thorough THEN 8 ELSE 6) |->
    LET n == nn - 1
        all == Ranges(n) \o Indices(n) \o (IF n \in {0, 1, 3} \/ Thorough THEN Sample(FarRanges(n), IF Thorough THEN 1 ELSE 4) ELSE <<>>)
    IN Flat([kk \in 1..5 |->
        LET kind == kk - 1
            some == IF kind = 0 \/ Thorough THEN all ELSE Sample(all, 3)
            parts == Chunk(some, 60)
        IN IF n = 0 /\ kind \in {1, 3, 4} THEN <<>>
           ELSE [p \in 1..Len(parts) |->
                  <<Begin>> \o SliceBase(n, kind)
                  \o [k \in 1..Len(parts[p]) |-> Sl(4, 1, (k + kind + Seed) % 6, <<parts[p][k]>>)]]])])

\* several dimensions at once
Few(n) == <<Ix(0), Ix(-1), Ix(n), RngF(0, 0, 0, 0, 0, 0), RngF(1, 1, 0, 0, 0, 0), RngF(0, 0, 1, -1, 0, 0),
            RngF(0, 0, 0, 0, 1, -1), RngF(1, -1, 1, 0, 1, -2), RngF(0, 0, 0, 0, 1, 2), RngF(1, 5, 1, 9, 0, 0)>>
Slice2Progs(suite) ==
  LET ab == Pairs(Few(2), Few(3))
      two == Chunk(ab, 50)
      abc == Sample(Flat([i \in 1..10 |-> Flat([j \in 1..10 |-> [k \in 1..10 |->
               <<Few(2)[i], Few(3)[j], Few(2)[k]>>]])]), IF Thorough THEN 1 ELSE 4)
      three == Chunk(abc, 50)
      \* a slice of a slice
      nest == Sample(ab, IF Thorough THEN 1 ELSE 2)
  IN [p \in 1..Len(two) |-> <<Begin, Numbered(1, 4, <<2, 3>>)>>
        \o [k \in 1..Len(two[p]) |-> Sl(2, 1, k % 6, two[p][k])] \o [k \in 1..3 |-> Sl(2, 1, k, <<Few(2)[k + 3]>>)]]
     \o [p \in 1..Len(three) |-> <<Begin, Numbered(1, 3, <<2, 3, 2>>)>>
        \o [k \in 1..Len(three[p]) |-> Sl(2, 1, k % 6, three[p][k])]]
     \o [p \in 1..Len(nest) |-> <<Begin, Numbered(1, 2, <<3, 4>>), Sl(2, 1, 0, <<RngF(0, 0, 0, 0, 1, -1), RngF(1, 1, 0, 0, 1, 2)>>),
                                  Sl(3, 2, 0, nest[p]), Sl(4, 3, 1, <<RngF(0, 0, 0, 0, 1, -1)>>),
                                  <<"transpose", 5, 2, 0, 1, 1>>, Sl(6, 5, 2, nest[p])>>]

\* every text of up to four characters of one alphabet and of five of a smaller one
TextProgs(suite) ==
  LET wide == UpTo(<<48, 49, 45, 58, 44, 32, 43, 120>>, IF Thorough THEN 5 ELSE 4)
      deep == Tuples(<<50, 45, 58, 44, 32>>, IF Thorough THEN 6 ELSE 5)
      colons == Tuples(<<49, 45, 58>>, 6)
      open(x) == ~TextOpen(x)
      base(k) == CASE k = 1 -> <<Numbered(1, 2, <<2, 3>>)>>
                   [] k = 2 -> <<Numbered(2, 4, <<3, 2>>), <<"transpose", 1, 2, 0, 1, 0>>>>
                   [] k = 3 -> <<Numbered(1, 5, <<3>>)>>
      all(k) == SelectSeq(CASE k = 1 -> wide [] k = 2 -> deep [] k = 3 -> colons \o UpTo(<<48, 45, 58, 32>>, 3), open)
      progs(k) == LET parts == Chunk(all(k), 60)
                  IN [p \in 1..Len(parts) |-> <<Begin>> \o base(k) \o [i \in 1..Len(parts[p]) |-> <<"tslice", 4, 1>> \o Z(parts[p][i])]]
      few == SelectSeq(UpTo(<<49, 58, 44>>, 2), open)
  IN progs(1) \o progs(2) \o progs(3)
     \o <<<<Begin, Some(1, 4, <<>>, 1)>> \o [i \in 1..Len(few) |-> <<"tslice", 2, 1>> \o Z(few[i])],
          <<Begin, Some(1, 4, <<0>>, 1)>> \o [i \in 1..Len(few) |-> <<"tslice", 2, 1>> \o Z(few[i])],
          <<Begin, Some(1, 4, <<2, 0, 2>>, 1)>> \o [i \in 1..Len(few) |-> <<"tslice", 2, 1>> \o Z(few[i])]>>

(*************************** broadcasting **********************************)
Exts == <<0, 1, 2, 3>>
Shapes(n) == UpTo(Exts, n)
BinOps == <<"add", "sub", "mul", "div">>
AllBin == <<"add", "sub", "mul", "div", "lt", "gt", "le", "ge", "eq", "ne">>
BroadcastProgs(suite) ==
  LET ps == Sample(Pairs(Shapes(3), Shapes(3)), IF Thorough THEN 1 ELSE 2)
      high == <<<<<<2, 1, 3, 1>>, <<3, 1, 2>>>>, <<<<2, 2, 2, 2, 2>>, <<2>>>>, <<<<1, 2, 1, 2, 1>>, <<3, 1, 2, 1, 2>>>>,
                <<<<4, 1, 1, 1>>, <<1, 3, 2>>>>, <<<<2, 3, 2, 2>>, <<3, 1, 2>>>>, <<<<2, 3, 2, 2>>, <<2, 2, 2>>>>,
                <<<<1, 1, 1, 1, 1, 2>>, <<3, 1>>>>, <<<<5, 1, 2, 1>>, <<1, 1, 1, 3>>>> >>
      ones == Sample(Pairs(Tuples(<<1, 2>>, 4), UpTo(<<1, 2>>, 4)), IF Thorough THEN 1 ELSE 2)
      all == ps \o high \o [k \in 1..Len(high) |-> <<high[k][2], high[k][1]>>] \o ones
  IN [k \in 1..Len(all) |->
       LET o == AllBin[((k + Seed) % 10) + 1]
           o2 == AllBin[((k + Seed + 4) % 10) + 1]
           t == (k + Seed) % 6  u == ((k + Seed) \div 6) % 6
       IN <<Begin, Some(1, t, all[k][1], 1), Some(2, u, all[k][2], 1),
            Bin(o, 3, 1, 2), Bin(o2, 4, 2, 1), <<"iadd", 1, 2>>>>]

\* the same with gradients: both operands, one operand, the reduced gradient
BroadcastGradProgs(suite) ==
  LET ss == UpTo(<<1, 2, 3>>, 2) \o <<<<2, 1, 3>>, <<1, 2, 1>>, <<2, 2, 1>>, <<1, 1, 1>>, <<2, 1, 2, 1>>>>
      ps == Pairs(ss, ss) \o Sample(Pairs(Tuples(<<1, 2>>, 4), UpTo(<<1, 2>>, 4)), IF Thorough THEN 1 ELSE 8)
      ok == SelectSeq(ps, LAMBDA p : Broadcastable(p[1], p[2]))
      use == Sample(Flat([i \in 1..4 |-> [k \in 1..Len(ok) |-> <<BinOps[i], ok[k]>>]]), 1)
  IN [k \in 1..Len(use) |->
       LET p == use[k][2]  c == (k + Seed) % 3  w == Broadcast(p[1], p[2])
       IN <<Begin, Some(1, 4 + (k % 2), p[1], 1),
            \* a denominator without zeros
            Lit(2, 4 + ((k \div 2) % 2), p[2], [j \in 1..Numel(p[2]) |-> <<<<2, -4, 1, 8, -1, 3>>[(j % 6) + 1], 0>>])>>
          \o (IF c # 1 THEN <<<<"setrg", 1, 1>>>> ELSE <<>>) \o (IF c # 2 THEN <<<<"setrg", 2, 1>>>> ELSE <<>>)
          \o <<Bin(use[k][1], 3, 1, 2), <<"setrt", 3, 1>>, Some(4, 5, w, 1), Bin("mul", 5, 3, 4),
               Un(IF k % 3 = 0 THEN "mean" ELSE "sum", 6, 5), <<"back", 6>>>>]

(*************************** types *****************************************)
\* values that tell the types apart
Sharp(t) ==
  CASE t = 0 -> <<<<100, 0>>, <<-128, 0>>, <<127, 0>>, <<-3, 0>>, <<0, 0>>, <<7, 0>>>>
    [] t = 1 -> <<<<300, 0>>, <<-32768, 0>>, <<32767, 0>>, <<-259, 0>>, <<0, 0>>, <<7, 0>>>>
    [] t = 2 -> <<<<70000, 0>>, <<-40000, 0>>, <<16777217, 0>>, <<-65537, 0>>, <<0, 0>>, <<7, 0>>>>
    [] t = 3 -> <<<<70001, 0>>, <<-40001, 0>>, <<16777219, 0>>, <<-65536, 0>>, <<0, 0>>, <<7, 0>>>>
    [] t = 4 -> <<<<2, 500000>>, <<-4, 750000>>, <<12, 125000>>, <<-1, 0>>, <<0, 0>>, <<7, 0>>>>
    [] t = 5 -> <<<<2, 750000>>, <<-4, 250000>>, <<1048577, 15625>>, <<-1, 500000>>, <<0, 0>>, <<7, 0>>>>
NoZero(v) == [k \in 1..Len(v) |-> IF v[k] = <<0, 0>> THEN <<3, 0>> ELSE v[k]]
Rot(v, r) == [k \in 1..Len(v) |-> v[((k + r - 1) % Len(v)) + 1]]
Six == <<0, 1, 2, 3, 4, 5>>
TypeProgs(suite) ==
  LET tt == Pairs(Six, Six)
  IN Flat([k \in 1..36 |->
       LET t == tt[k][1]  u == tt[k][2]
       IN [r \in 1..(IF Thorough THEN 6 ELSE 3) |->
            <<Begin, Lit(1, t, <<6>>, Sharp(t)), Lit(2, u, <<6>>, NoZero(Rot(Sharp(u), (r + Seed) % 6)))>>
            \o [i \in 1..10 |-> Bin(AllBin[i], 3, 1, 2)]
            \o <<Lit(4, u, <<2, 1>>, SubSeq(NoZero(Sharp(u)), ((r - 1) % 5) + 1, ((r - 1) % 5) + 2)), Bin("sub", 3, 1, 4), Bin("div", 3, 1, 4), Bin("mul", 3, 4, 1),
                 <<"type", 5, 1, u>>, <<"type", 6, 2, t>>, <<"cat", 7, 2, 1, 2, 0>>, <<"cat", 8, 3, 2, 1, 2, 0>>,
                 Un("neg", 9, 1), Un("abs", 9, 1), Un("sum", 9, 1), Un("mean", 9, 1), Un("max", 9, 1), Un("min", 9, 1),
                 <<"all", 1>>, <<"all", 2>>,
                 Un("clone", 10, 1), <<"iadd", 10, 2>>, Un("clone", 10, 1), <<"iadd", 10, 1>>,
                 <<"setrg", 10, 1>>, <<"setrt", 10, 1>>, <<"type", 11, 10, u>>>>]])

\* mixed precision in the gradients: the type of a gradient is that of its tensor
MixedGradProgs(suite) ==
  LET ops == <<"add", "sub", "mul", "div">>
      zz == <<<<2>>, <<>>, <<2, 1>>, <<2, 2>>, <<1>>, <<1, 2, 2>>>>
      tt == <<<<4, 4>>, <<4, 5>>, <<5, 4>>, <<5, 5>>, <<4, 0>>, <<4, 1>>, <<4, 2>>, <<4, 3>>, <<5, 0>>, <<5, 1>>, <<5, 2>>, <<5, 3>>,
              <<0, 4>>, <<1, 4>>, <<2, 4>>, <<3, 4>>, <<0, 5>>, <<1, 5>>, <<2, 5>>, <<3, 5>>>>
      use == Flat([i \in 1..4 |-> Flat([k \in 1..Len(tt) |-> [z \in 1..Len(zz) |-> <<ops[i], tt[k], zz[z]>>]])])
  IN [n \in 1..Len(use) |->
       LET o == use[n][1]  t == use[n][2][1]  u == use[n][2][2]  z == use[n][3]
           x == <<Lit(1, t, <<2, 2>>, <<<<3, 0>>, <<-2, 0>>, <<5, IF t > 3 THEN 500000 ELSE 0>>, <<100, 0>>>>),
                  Lit(2, u, z, SubSeq(<<<<4, 0>>, <<-8, 0>>, <<2, 0>>, <<1, 0>>>>, 1, Numel(z)))>>
       IN <<Begin>> \o x
          \o (IF t > 3 THEN <<<<"setrg", 1, 1>>>> ELSE <<>>) \o (IF u > 3 THEN <<<<"setrg", 2, 1>>>> ELSE <<>>)
          \o <<Bin(o, 3, 1, 2), <<"setrt", 3, 1>>, Bin("mul", 4, 3, 3), Un("sum", 5, 4), <<"back", 5>>,
               Bin(o, 6, 2, 1), Un("mean", 7, 6), <<"back", 7>>, <<"type", 8, 3, 4>>, <<"type", 9, 8, 5>>, Un("sum", 10, 9), <<"zerog", 3>>>>]

\* infinities, NaN and zeros: every one against every other
Ieee == <<<<0, -1>>, <<1, -1>>, <<-1, -1>>, <<0, 0>>, <<1, 0>>, <<-2, 500000>>, <<16777216, 0>>, <<-3, 0>>>>
Plain == <<<<0, 0>>, <<1, 0>>, <<-1, 0>>, <<0, 0>>, <<7, 0>>, <<-2, 0>>, <<100, 0>>, <<-3, 0>>>>
IeeeProgs(suite) ==
  LET of(t) == IF t > 3 THEN Ieee ELSE Plain
      tt == SelectSeq(Pairs(Six, Six), LAMBDA p : p[1] > 3 \/ p[2] > 3)
      col(d, t, v) == Lit(d, t, <<Len(v), 1>>, v)
      row(d, t, v) == Lit(d, t, <<Len(v)>>, v)
      noNan == <<<<1, -1>>, <<-1, -1>>, <<0, 0>>, <<1, 0>>, <<-2, 500000>>>>
      sets == <<noNan, <<<<1, -1>>>>, <<<<-1, -1>>, <<-1, -1>>>>, <<<<3, 0>>, <<-1, -1>>, <<5, 0>>>>, <<<<-3, 0>>, <<-4, 0>>, <<1, -1>>>>, <<<<0, -1>>>>, <<<<0, -1>>, <<2, 0>>>>,
                <<<<1, -1>>, <<0, -1>>>>, <<<<0, 0>>, <<0, -1>>>>, <<<<1, -1>>, <<1, -1>>>>, <<<<1, -1>>, <<-1, -1>>>>>>
  IN [k \in 1..Len(tt) |->
       <<Begin, col(1, tt[k][1], of(tt[k][1])), row(2, tt[k][2], of(tt[k][2]))>> \o [i \in 1..10 |-> Bin(AllBin[i], 3, 1, 2)] \o [i \in 1..10 |-> Bin(AllBin[i], 4, 2, 1)]
       \o <<Lit(5, tt[k][1], <<8, 8>>, [i \in 1..64 |-> of(tt[k][1])[((i * 3) % 8) + 1]]), <<"all", 1>>>>
       \o (IF tt[k][1] > 3 THEN <<<<"iadd", 5, 2>>, <<"iadd", 5, 1>>, <<"type", 6, 1, 4>>, <<"type", 6, 1, 5>>>> ELSE <<>>)
       \o <<<<"cat", 7, 3, 1, 1, 1, 1>>, <<"transpose", 8, 3, 0, 1, 0>>, Bin("eq", 9, 8, 3), Bin("ge", 9, 3, 8), <<"show", 3>>, Un("neg", 10, 3), Un("abs", 10, 3)>>]
     \o Flat([ty \in 1..2 |-> [k \in 1..Len(sets) |->
          LET t == ty + 3 IN <<Begin, row(1, t, sets[k]), Sl(2, 1, 0, <<RngF(0, 0, 0, 0, 1, -1)>>)>>
          \o Flat([h \in 1..2 |-> [i \in 1..7 |-> Un(<<"sum", "mean", "max", "min", "abs", "neg", "clone">>[i], 3, h)]]) \o <<<<"all", 1>>, <<"all", 2>>, <<"show", 1>>>>
          \o <<<<"fulld", 4, t, 1, 2, 1>> \o sets[k][1], <<"scal", 5, t, 1>> \o sets[k][1], Bin("eq", 6, 4, 5), Bin("ne", 6, 4, 5), Bin("le", 6, 1, 5), <<"setrg", 1, 1>>, Bin("add", 7, 1, 2), Un("sum", 8, 7), <<"back", 8>>>>]])

(*************************** reshape and transpose *************************)
Dims(n) == SelectSeq(UpTo(<<1, 2, 3, 4, 6, 12>>, 3), LAMBDA z : Numel(z) = n)
Asked(n) == LET ok == Dims(n)
            IN ok \o Flat([i \in 1..Len(ok) |-> [j \in 1..Len(ok[i]) |-> [ok[i] EXCEPT ![j] = -1]]])
               \o <<<<n + 1>>, <<-1, -1>>, <<-1, n + 1>>, <<-2, -n>>, <<n, 2>>, <<0, -1>>, <<0>>, <<-n>>, <<>>, <<-1, 0, n>>, <<2, -1, -1>>>>
ReshapeProgs(suite) ==
  LET ns == <<1, 2, 6, 12>> \o (IF Thorough THEN <<4, 8, 24>> ELSE <<4>>)
      base(n, z, kind) ==
        CASE kind = 0 -> <<Numbered(1, 4, z)>>
          [] kind = 1 -> <<Numbered(2, 2, [i \in 1..Len(z) |-> z[i] * 2]), Sl(1, 2, 0, [i \in 1..Len(z) |-> RngF(0, 0, 0, 0, 1, 2)])>>
          [] kind = 2 -> <<Numbered(2, 0, z), Sl(1, 2, 0, [i \in 1..Len(z) |-> RngF(0, 0, 0, 0, 1, -1)])>>
          [] kind = 3 -> <<Numbered(2, 5, Reverse(z))>> \o (IF Len(z) > 1 THEN <<<<"transpose", 1, 2, 0, Len(z) - 1, 0>>>> ELSE <<Un("assign", 1, 2)>>)
          [] kind = 4 -> <<Numbered(2, 3, <<2>> \o z), Sl(1, 2, 0, <<Ix(1)>>)>>
  IN Flat([m \in 1..Len(ns) |->
       LET n == ns[m]
           bases == Sample(Pairs(Dims(n), <<0, 1, 2, 3, 4>>), IF Thorough THEN 1 ELSE IF n = 12 THEN 3 ELSE 1)
       IN Flat([b \in 1..Len(bases) |->
            LET asks == Sample(Asked(n), IF Thorough THEN 1 ELSE 2)
                parts == Chunk(asks, 40)
            IN IF bases[b][1] = <<>> /\ bases[b][2] \in {1, 2} THEN <<>>
               ELSE [p \in 1..Len(parts) |->
                     <<Begin>> \o base(n, bases[b][1], bases[b][2])
                     \o [k \in 1..Len(parts[p]) |-> <<"reshape", 3, 1>> \o Z(parts[p][k]) \o <<k % 2>>]]])])

TransposeProgs(suite) ==
  LET zs == UpTo(<<1, 2, 3>>, 3) \o <<<<2, 3, 1, 2>>, <<2, 2, 3, 2>>, <<2, 1, 2, 2, 3>>, <<0, 2>>, <<2, 0, 3>>>>
  IN [k \in 1..Len(zs) |->
       LET n == Len(zs[k])
           ij == Pairs(Ints(0, n), Ints(0, n))
       IN <<Begin, Numbered(1, (k + Seed) % 6, zs[k])>>
          \o Flat([p \in 1..Len(ij) |-> <<<<"transpose", 2, 1, ij[p][1], ij[p][2], p % 2>>>>])
          \o (IF n >= 2 THEN <<<<"transpose", 2, 1, 0, n - 1, 0>>, <<"transpose", 3, 2, 0, 1, 0>>, <<"reshape", 4, 3, 1, -1, 0>>,
                               Un("cont", 5, 3), Un("clone", 6, 3), <<"show", 3>>, <<"iadd", 2, 2>>, <<"show", 2>>>> ELSE <<>>)]

(*************************** concatenation *********************************)
CatProgs(suite) ==
  LET ss == UpTo(<<0, 1, 2>>, 2) \o <<<<2, 1, 2>>, <<2, 3, 2>>, <<1, 1, 2>>, <<2, 1, 3>>, <<2, 2, 2, 2>>, <<2, 1, 2, 2>>>>
      all == Pairs(ss, ss)
      ps == Sample(all, 1)
      cc(k) == <<Begin, Some(1, (k + Seed) % 6, ps[k][1], 1), Some(2, ((k + Seed) \div 6) % 6, ps[k][2], 1)>>
               \o Flat([n \in 1..4 |-> <<<<"cat", 3, 2, 1, 2, n - 1>>>>])
               \o <<<<"cat", 4, 1, 1, 0>>, <<"cat", 5, 3, 2, 1, 2, 0>>, <<"cat", 6, 3, 1, 1, 2, 1>>, <<"cat", 7, 0, 0>>>>
      \* operands that are views; all operands' gradients
      views(d, n, t, kind) ==
        CASE kind = 0 -> <<Some(d, t, <<2, n>>, 1), <<"setrg", d, 1>>>>
          [] kind = 1 -> <<Some(d + 1, t, <<n, 2>>, 1), <<"setrg", d + 1, 1>>, <<"transpose", d, d + 1, 0, 1, 0>>>>
          [] kind = 2 -> <<Some(d + 1, t, <<3, n + 1>>, 1), <<"setrg", d + 1, 1>>, Sl(d, d + 1, 0, <<RngF(0, 0, 0, 0, 1, -2), RngF(1, 1, 0, 0, 0, 0)>>)>>
          [] kind = 3 -> <<Some(d, t, <<2, n>>, 1)>>
      gk == Sample(Flat([i \in 1..4 |-> Flat([j \in 1..4 |-> [m \in 1..4 |-> <<i - 1, j - 1, m - 1>>]])]), 1)
      gg(k) == <<Begin>> \o views(1, 1, 4, gk[k][1]) \o views(3, 2, 5, gk[k][2]) \o views(5, 3, 4, gk[k][3])
               \o <<<<"cat", 7, 3, 1, 3, 5, 1>>, <<"cat", 7, 4, 5, 3, 1, 3, 1>>, Some(8, 5, <<2, 8>>, 1), Bin("mul", 9, 7, 8), Un("sum", 10, 9), <<"back", 10>>,
                    <<"cat", 7, 2, 3, 3, 0>>, Bin("mul", 9, 7, 7), Un("mean", 10, 9), <<"back", 10>>>>
      \* every list of up to four of three tensors: which operand gets which part of the gradient
      lists == Tuples(<<1, 2, 3>>, 2) \o Tuples(<<1, 2, 3>>, 3) \o Tuples(<<1, 2, 3>>, 4) \o (IF Thorough THEN Tuples(<<1, 2, 3>>, 5) ELSE Sample(Tuples(<<1, 2, 3>>, 5), 6))
      ll(k) == LET q == lists[k]  d == (k + Seed) % 2  one == Len(q) + Len(SelectSeq(q, LAMBDA j : j = 2))
                   z(n) == IF d = 0 THEN <<n, 2>> ELSE <<2, n>>
               IN <<Begin, Some(1, 4, z(1), 1), Some(2, 5, z(2), 1), Some(3, 4 + (k % 2), z(1), 1)>>
                  \o Flat([i \in 1..3 |-> IF (k + i) % 4 = 0 THEN <<>> ELSE <<<<"setrg", i, 1>>>>])
                  \o <<<<"cat", 4, Len(q)>> \o q \o <<d>>, Numbered(5, 5, z(one)), Bin("mul", 6, 4, 5), Un("sum", 7, 6), <<"back", 7>>>>
      \* more operands than a byte counts
      many(n, d) == <<Begin, Some(1, 4, IF d = 0 THEN <<1, 2>> ELSE <<2, 1>>, 1), <<"setrg", 1, 1>>, Some(2, 5, <<2, 2>>, 1), <<"setrg", 2, 1>>,
                      <<"cat", 3, n>> \o [i \in 1..n |-> 1 + (((i * i) % 3) % 2)] \o <<d>>, Bin("mul", 4, 3, 3), Un("sum", 5, 4), <<"back", 5>>>>
  IN [k \in 1..Len(ps) |-> cc(k)] \o [k \in 1..Len(gk) |-> gg(k)] \o [k \in 1..Len(lists) |-> ll(k)] \o <<many(257, 0), many(300, 1)>>

(*************************** gradients between passes *********************)
\* After a pass that left a gradient at a leaf, at a view, at a copy in another type and at a kept result:
\* every sequence of calls that have to do with flags, gradients and the leaves, and a pass over a new graph.
GradProgs(suite) ==
  LET pass == <<Bin("mul", 3, 1, 2), Bin("add", 5, 3, 4), Bin("mul", 5, 5, 1), Un("sum", 6, 5), <<"back", 6>>>>
      ops == << <<<<"setrg", 1, 0>>>>, <<<<"setrg", 1, 1>>>>, <<<<"setrg", 3, 0>>>>, <<<<"zerog", 1>>>>, <<<<"zerog", 3>>, <<"zerog", 4>>>>,
                <<<<"setrt", 3, 0>>>>, <<<<"setrt", 3, 1>>, <<"setrt", 1, 1>>>>, <<<<"gcopy", 7, 1>>, <<"iadd", 7, 2>>, <<"gcopy", 7, 3>>>>, <<<<"ghold", 7, 1>>>>,
                pass, <<<<"back", 6>>>>, <<<<"setrg", 1, 0>>, <<"iadd", 1, 2>>, <<"setrg", 1, 1>>>>, <<<<"detach", 1, 1>>>>, <<<<"assign", 8, 1>>, Un("clone", 1, 1)>>,
                <<<<"drop", 3>>, <<"drop", 6>>>> >>
      seqs == LET n == [k \in 1..Len(ops) |-> k] IN Tuples(n, 1) \o Tuples(n, 2) \o Sample(Tuples(n, 3), IF Thorough THEN 1 ELSE 8)
      pp(k) == LET q == seqs[k]
               IN <<Begin, Numbered(1, 4 + (k % 2), <<2>>), <<"setrg", 1, 1>>, Numbered(2, 5, <<2>>), <<"setrg", 2, 1>>,
                    Numbered(9, 4, <<3>>), <<"setrg", 9, 1>>, Sl(4, 9, 0, <<RngF(1, 1, 0, 0, 0, 0)>>), <<"setrt", 4, 1>>,
                    Bin("mul", 3, 1, 2), <<"setrt", 3, 1>>, Bin("add", 5, 3, 4), Un("sum", 6, 5), <<"back", 6>>>>
                  \o Flat([i \in 1..Len(q) |-> ops[q[i]]]) \o pass
  IN [k \in 1..Len(seqs) |-> pp(k)]

(*************************** shapes that cannot be *************************)
\* more elements than can be counted; most of the products are small modulo 2^64 (see the executor)
Impossible == <<<<1000000032, 1000000032>>, <<1000000032, 1, 1000000032>>, <<1000000061>>, <<1000000061, 8>>, <<2, 1000000061, 2, 2>>, <<4, 1000000063>>, <<1000000063, 4>>,
                <<7, 1000000007>>, <<1000000007, 1, 7>>, <<1000000062, 1000000062>>>>
Unsigned == <<<<2, 1000000064>>, <<1000000064, 2, 3>>, <<1000000065, 1000000065>>, <<1000000065>>>>
ImpossibleProgs(suite) ==
  LET zs == Impossible \o Unsigned
  IN [k \in 1..Len(zs) |->
       <<Begin, Numbered(9, (k + Seed) % 6, <<2, 2>>)>> \o Flat([t \in 1..6 |->
         <<<<"zeros", 1, t - 1>> \o Z(zs[k]), <<"ones", 2, t - 1>> \o Z(zs[k]), <<"sized", 9, t - 1>> \o Z(zs[k]), <<"randn", 3, t - 1>> \o Z(zs[k]),
           <<"fulli", 9, t - 1>> \o Z(zs[k]) \o <<1, 1, 0>>, <<"fulld", 4, t - 1>> \o Z(zs[k]) \o <<1, 1, 0>>, <<"lit", 4, t - 1>> \o Z(zs[k]) \o <<0>>>>
         \o (IF Len(zs[k]) = 2 THEN <<<<"eye", 5, t - 1>> \o zs[k] \o <<0>>>> ELSE <<>>)])]
ImpossibleReshapes(suite) ==
  [k \in 1..Len(Impossible) |->
     LET z == Impossible[k]
     IN <<Begin, Some(1, 4, <<>>, 1), Some(2, 2, <<2, 2>>, 0), Some(3, 5, <<0, 3>>, 1), <<"transpose", 4, 2, 0, 1, 0>>, Some(5, 0, <<1, 1>>, 0), Some(6, 4, <<2>>, 1), <<"setrg", 6, 1>>>>
        \o Flat([a \in 1..6 |-> <<<<"reshape", 7, a>> \o Z(z) \o <<a % 2>>>>
             \o (IF a = 3 THEN <<>> ELSE <<<<"reshape", 7, a>> \o Z(Append(z, -1)) \o <<k % 2>>>>)])]   \* of the empty tensor: 0

(*************************** constructors **********************************)
CtorProgs(suite) ==
  LET zs == UpTo(<<0, 1, 2, 3>>, 2) \o <<<<2, 3, 2>>, <<1, 2, 1, 2>>, <<2, 1, 2, 1, 2>>>>
      fills == <<<<0, 0>>, <<1, 0>>, <<-1, 0>>, <<5, 750000>>, <<-3, 250000>>, <<100, 0>>, <<-128, 0>>>>
      wide == <<<<200, 0>>, <<-300, 0>>, <<40000, 0>>, <<70000, 0>>, <<16777217, 0>>, <<-16777219, 0>>>>
  IN [k \in 1..Len(zs) |->
       <<Begin>> \o Flat([t \in 1..6 |-> <<<<"zeros", 1, t - 1>> \o Z(zs[k]), <<"show", 1>>, <<"ones", 2, t - 1>> \o Z(zs[k]),
                                          Un("zlike", 3, 2), Un("olike", 4, 1), <<"sized", 5, t - 1>> \o Z(zs[k]), <<"randn", 6, t - 1>> \o Z(zs[k]),
                                          Un("rlike", 7, 2), <<"iadd", 1, 2>>, <<"show", 6>>, <<"rel", 6>>>>])]
     \o [t \in 1..6 |-> <<Begin>>
           \o Flat([k \in 1..Len(fills) |-> <<<<"fulld", 1, t - 1, 2, 2, 2, 1>> \o fills[k], <<"fulli", 2, t - 1, 1, 3, 1, fills[k][1], 0>>,
                                             <<"scal", 3, t - 1, 1, fills[k][1], IF t > 4 THEN fills[k][2] ELSE 0>>, <<"show", 3>>>>])
           \o Flat([k \in 1..Len(wide) |-> <<<<"fulli", 2, t - 1, 2, 1, 2, 1>> \o wide[k]>>
                                           \o (IF t > 2 \/ (t = 2 /\ k < 3) THEN <<<<"fulld", 1, t - 1, 1, 2, 1>> \o wide[k]>> ELSE <<>>)])
           \o Flat([n \in 1..5 |-> Flat([m \in 1..5 |-> <<<<"eye", 4, t - 1, n - 1, m - 1, (n + m) % 2>>>>])])
           \o <<<<"eye", 4, t - 1, 3, 3, 1>>, <<"eye", 4, t - 1, 7, 4, 0>>, <<"fulld", 5, t - 1, 0, 1, 7, 0>>, <<"fulli", 5, t - 1, 0, 1, 7, 0>>>>]
     \o <<<<Begin,
            <<"init", 1, 2, 1, 3, 3, 1, 0, 2, 0, 3, 0, 0>>,
            <<"init", 2, 5, 2, 3, 2, 6, 1, 500000, 2, 250000, -4, 500000, 4, 0, 0, 250000, -1, 500000, 1>>,
            <<"init", 3, 2, 3, 2, 2, 2, 8, 1, 0, 2, 0, 3, 0, 4, 0, 5, 0, 6, 0, 7, 0, 8, 0, 2>>,
            <<"init", 4, 4, 2, 2, 1, 2, 1, 500000, 2, 500000, 3>>,
            <<"init", 5, 0, 2, 1, 2, 2, 100, 0, -100, 0, 4>>,
            <<"init", 6, 1, 2, 3, 1, 3, 30000, 0, -30000, 0, 1, 0, 5>>,
            <<"init", 7, 5, 4, 1, 2, 1, 3, 6, 1, 500000, -2, 500000, 2, 500000, 0, 500000, 7, 250000, -8, 0, 6>>,
            <<"init", 8, 3, 1, 1, 1, 7, 0, 7>>,
            <<"init", 9, 4, 3, 1, 3, 2, 6, 3, 500000, 1, 0, 2, 0, -1, 750000, 8, 0, 9, 0, 8>>,
            <<"ragged", 0>>, <<"ragged", 1>>, <<"ragged", 2>>, <<"ragged", 3>>,
            <<"show", 7>>, <<"show", 3>>, Un("sum", 10, 7), Bin("add", 11, 2, 4)>>>>

\* every literal of up to three levels with lists of up to two parts, whether it has a shape or not,
\* the regular ones of every shape and type, and those in which one part differs
RECURSIVE Regular(_, _)
Regular(z, t) == IF Len(z) = 1 THEN <<10 * t + z[1]>>
                 ELSE LET r == Regular(Tail(z), t) IN <<100 + z[1]>> \o Flat([k \in 1..z[1] |-> r])
LiteralProgs(suite) ==
  LET leaf == <<<<20>>, <<21>>, <<22>>, <<51>>, <<52>>>>
      up(ts) == [k \in 1..Len(ts) |-> <<101>> \o ts[k]] \o LET ps == Pairs(ts, ts) IN [k \in 1..Len(ps) |-> <<102>> \o ps[k][1] \o ps[k][2]]
      two == leaf \o up(leaf)
      three == two \o up(two)
      four == Pairs(Sample(three, IF Thorough THEN 7 ELSE 43), Sample(three, IF Thorough THEN 7 ELSE 31))
      zs == SelectSeq(Flat([n \in 1..5 |-> Tuples(<<1, 2, 3>>, n)]), LAMBDA z : Numel(z) <= 36)
      use == Sample(zs, IF Thorough THEN 1 ELSE 2)
      whole == [k \in 1..Len(use) |-> Regular(use[k], (k + Seed) % 6)]
      \* one more or one less number in the list at position j, or another type
      bend(c, j, m) == [c EXCEPT ![j] = CASE m = 0 -> IF @ % 10 = 3 THEN @ - 1 ELSE @ + 1 [] m = 1 -> (@ + 10) % 60 [] m = 2 -> IF @ % 10 = 1 THEN @ + 1 ELSE @ - 1]
      lists(c) == SelectSeq([k \in 1..Len(c) |-> k], LAMBDA k : c[k] < 100)
      bent == [k \in 1..Len(whole) |-> LET c == whole[k]  q == lists(c) IN bend(c, q[((k * 7 + Seed) % Len(q)) + 1], k % 3)]
      all == three \o [k \in 1..Len(four) |-> <<102>> \o four[k][1] \o four[k][2]] \o whole \o bent
      n == 12
  IN [b \in 1..((Len(all) + n - 1) \div n) |->
       <<Begin>> \o Flat([k \in 1..(IF b * n <= Len(all) THEN n ELSE Len(all) - (b - 1) * n) |->
         <<<<"tree", 1>> \o Z(all[(b - 1) * n + k])>> \o (IF k % 5 = 0 THEN <<<<"show", 1>>, Un("neg", 2, 1)>> ELSE <<>>)])]

(*************************** reductions, abs *******************************)
\* values in several orders: the extreme element first, last, in the middle, repeated; all negative, all positive
Orders == <<<<5, 1, -2, 3, 0, -7>>, <<-7, 1, -2, 3, 0, 5>>, <<1, 5, -2, -7, 0, 3>>, <<-3, -1, -2, -6, -5, -4>>, <<3, 1, 2, 6, 5, 4>>,
            <<4, 4, -4, -4, 4, -4>>, <<0, 0, 0, 0, 0, 0>>, <<-1, 0, 0, 0, 0, 0>>, <<2, -3, 2, -3, 2, -3>>>>
ReduceProgs(suite) ==
  LET red == <<"sum", "mean", "max", "min", "abs">>
      frac(t, k) == IF t = 4 /\ k % 2 = 0 THEN 500000 ELSE IF t = 5 THEN (k % 4) * 250000 ELSE 0
      kinds == <<0, 1, 2, 3, 4, 5>>
      base(t, w, kind) ==      \* handle 1: the tensor
        LET v == [k \in 1..6 |-> <<w[k], frac(t, k)>>]
            pad == <<(IF t < 1 THEN 99 ELSE 999), 0>>   \* outside the view
        IN CASE kind = 0 -> <<Lit(1, t, <<6>>, v)>>
             [] kind = 1 -> <<Lit(1, t, <<2, 3>>, v)>>
             [] kind = 2 -> <<Lit(2, t, <<2, 3>>, v), <<"transpose", 1, 2, 0, 1, 0>>>>
             [] kind = 3 -> <<Lit(2, t, <<6>>, v), Sl(1, 2, 0, <<RngF(0, 0, 0, 0, 1, -1)>>)>>
             [] kind = 4 -> <<Lit(2, t, <<7, 2>>, Flat([k \in 1..7 |-> IF k = 7 THEN <<pad, pad>> ELSE <<pad, v[k]>>])),
                              Sl(1, 2, 0, <<RngF(0, 0, 1, -1, 0, 0), RngF(1, 1, 0, 0, 0, 0)>>)>>
             [] kind = 5 -> <<Lit(2, t, <<2, 2, 3>>, [k \in 1..6 |-> <<-pad[1], 0>>] \o v), Sl(1, 2, 0, <<Ix(1)>>)>>
  IN Flat([t \in 1..6 |-> Flat([w \in 1..Len(Orders) |-> [k \in 1..6 |->
       <<Begin>> \o base(t - 1, Orders[w], kinds[k])
       \o (IF t > 4 THEN <<<<"setrg", IF kinds[k] < 2 THEN 1 ELSE 2, 1>>>> ELSE <<>>)
       \* the view is taken again so that it depends on the leaf
       \o (IF t > 4 THEN Tail(base(t - 1, Orders[w], kinds[k])) ELSE <<>>)
       \o [i \in 1..5 |-> Un(red[i], 3 + i, 1)]
       \o <<<<"all", 1>>, Sl(9, 1, 0, <<Ix(0)>>), Sl(10, 1, 0, <<Ix(-1)>>)>>
       \o Flat([i \in 1..5 |-> <<Un(red[i], 11, 9), Un(red[i], 12, 10)>>])
       \o (IF t > 4 THEN <<Lit(13, 5, <<>>, <<<<3, 0>>>>), Bin("mul", 4, 4, 13), <<"back", 4>>, Bin("mul", 5, 5, 5), <<"back", 5>>,
                          Bin("mul", 6, 6, 13), <<"back", 6>>, Bin("add", 7, 7, 7), <<"back", 7>>,
                          Bin("mul", 8, 8, 1), Un("sum", 14, 8), <<"back", 14>>, Un("sum", 14, 11), <<"back", 14>>>> ELSE <<>>)]])])

(*************************** every call on every layout ********************)
\* handle 1: a 2x3 tensor of the given layout; the same values whatever the layout
LayoutKinds == 0..9
Laid(kind, t) ==
  LET v == [k \in 1..6 |-> <<<<3, -1, 4, 2, -5, 1>>[k], IF t > 3 THEN <<0, 500000, 250000, 0, 0, 750000>>[k] ELSE 0>>]
      x == <<77, 0>>
      whole == RngF(0, 0, 0, 0, 0, 0)
      back == RngF(0, 0, 0, 0, 1, -1)
  IN CASE kind = 0 -> <<Lit(1, t, <<2, 3>>, v)>>
       [] kind = 1 -> <<Lit(2, t, <<3, 2>>, <<v[1], v[4], v[2], v[5], v[3], v[6]>>), <<"transpose", 1, 2, 0, 1, 0>>>>
       [] kind = 2 -> <<Lit(2, t, <<2, 3>>, Reverse(v)), Sl(1, 2, 0, <<back, back>>)>>
       [] kind = 3 -> <<Lit(2, t, <<2, 3>>, <<v[4], v[5], v[6], v[1], v[2], v[3]>>), Sl(1, 2, 0, <<back>>)>>
       [] kind = 4 -> <<Lit(2, t, <<4, 4>>, <<x, x, x, x, x, v[1], v[2], v[3], x, v[4], v[5], v[6], x, x, x, x>>),
                        Sl(1, 2, 0, <<RngF(1, 1, 1, 3, 0, 0), RngF(1, 1, 0, 0, 0, 0)>>)>>
       [] kind = 5 -> <<Lit(2, t, <<2, 6>>, <<v[1], x, v[2], x, v[3], x, v[4], x, v[5], x, v[6], x>>), Sl(1, 2, 0, <<whole, RngF(0, 0, 0, 0, 1, 2)>>)>>
       [] kind = 6 -> <<Lit(2, t, <<2, 2, 3>>, [k \in 1..6 |-> x] \o v), Sl(1, 2, 0, <<Ix(-1)>>)>>
       [] kind = 7 -> <<Lit(2, t, <<6>>, v), <<"reshape", 1, 2, 2, 2, -1, 0>>>>
       [] kind = 8 -> <<Lit(2, t, <<3, 4>>, <<x, v[4], x, v[1], x, v[5], x, v[2], x, v[6], x, v[3]>>),
                        <<"transpose", 3, 2, 0, 1, 0>>, Sl(1, 3, 0, <<RngF(1, -1, 1, 0, 1, -2)>>)>>
       [] kind = 9 -> <<Lit(2, t, <<3, 2>>, <<v[3], v[6], v[2], v[5], v[1], v[4]>>), Sl(3, 2, 0, <<back>>), <<"transpose", 1, 3, 1, 0, 0>>>>
LayoutProgs(suite) ==
  Flat([kk \in 1..10 |-> Flat([t \in 1..6 |->
    LET base == Laid(kk - 1, t - 1)
        grad == t > 4
        leaf == IF kk = 1 THEN 1 ELSE 2
        make == <<base[1]>> \o (IF grad THEN <<<<"setrg", leaf, 1>>, <<"setrt", leaf, 0>>>> ELSE <<>>) \o Tail(base)
        other == Lit(4, (t + kk + Seed) % 6, <<3>>, <<<<2, 0>>, <<-4, 0>>, <<1, 0>>>>)
        col == Lit(5, (t + kk + Seed + 3) % 6, <<2, 1>>, <<<<-1, 0>>, <<8, 0>>>>)
    IN <<<<Begin>> \o make \o <<other, col>>
         \o [i \in 1..10 |-> Bin(AllBin[i], 6, 1, 4)] \o [i \in 1..10 |-> Bin(AllBin[i], 6, 5, 1)]
         \o <<Bin("add", 6, 1, 1), Bin("mul", 6, 1, 1), Un("neg", 6, 1), Un("abs", 6, 1), Un("sum", 6, 1), Un("mean", 6, 1), Un("max", 6, 1), Un("min", 6, 1),
              Un("clone", 6, 1), Un("cont", 6, 1), Un("detach", 7, 1), <<"type", 6, 1, 4>>, <<"type", 6, 1, 5>>, <<"cat", 6, 2, 1, 1, 0>>, <<"cat", 6, 3, 1, 5, 1, 1>>,
              <<"reshape", 6, 1, 2, 3, 2, 0>>, <<"reshape", 6, 1, 1, -1, 1>>, <<"reshapeas", 6, 1, 1>>, <<"transpose", 6, 1, 0, 1, 1>>,
              Sl(6, 1, 1, <<RngF(0, 0, 0, 0, 1, -1), RngF(1, 1, 0, 0, 0, 0)>>), Sl(6, 1, 0, <<Ix(1)>>), Un("zlike", 6, 1), Un("olike", 6, 1), Un("rlike", 6, 1),
              <<"all", 1>>, <<"show", 1>>, <<"rel", 1>>, <<"iadd", 7, 4>>, <<"iadd", 7, 5>>, <<"iadd", 7, 7>>, <<"drop", leaf>>, Un("sum", 6, 1)>>>>
       \o (IF ~grad THEN <<>>
           ELSE LET ops == <<"add", "sub", "mul", "div", "rsub", "rdiv", "neg", "abs", "max", "min", "sum", "mean", "clone", "cont", "type", "cat", "reshape", "slice", "self", "transpose">>
                IN [i \in 1..Len(ops) |->
                     LET o == ops[i]
                     IN <<Begin>> \o make
                        \o <<Lit(4, 4 + ((kk + i) % 2), <<3>>, <<<<2, 0>>, <<-4, 0>>, <<1, 0>>>>), <<"setrg", 4, i % 2>>, <<"setrt", 1, 1>>>>
                        \o (CASE o \in {"add", "sub", "mul", "div"} -> <<Bin(o, 6, 1, 4)>>
                              [] o = "rsub" -> <<Bin("sub", 6, 4, 1)>>
                              [] o = "rdiv" -> <<Bin("div", 6, 4, 1)>>
                              [] o = "self" -> <<Bin("mul", 6, 1, 1), Bin("sub", 6, 6, 1)>>
                              [] o = "type" -> <<<<"type", 6, 1, 9 - (t - 1)>>>>
                              [] o = "cat" -> <<<<"cat", 6, 2, 1, 1, 1>>>>
                              [] o = "reshape" -> <<<<"reshape", 6, 1, 2, 3, 2, 0>>>>
                              [] o = "transpose" -> <<<<"transpose", 6, 1, 0, 1, 0>>>>
                              [] o = "slice" -> <<Sl(6, 1, 0, <<RngF(0, 0, 0, 0, 1, -1), RngF(1, 1, 0, 0, 0, 0)>>)>>
                              [] OTHER -> <<Un(o, 6, 1)>>)
                        \o <<Lit(8, 5, <<>>, <<<<-2, 500000>>>>), Bin("mul", 9, 6, 8), Bin("mul", 9, 9, 6), <<"setrt", 6, 1>>, Un("sum", 10, 9), <<"back", 10>>>>]
                   \* the view itself is the leaf: its gradient accumulates, is reset and is held
                   \o <<<<Begin>> \o base \o <<<<"setrg", 1, 1>>, Un("assign", 1, 1), Bin("mul", 6, 1, 1), Un("sum", 7, 6), Un("assign", 7, 7), <<"back", 7>>, <<"gcopy", 8, 1>>, <<"ghold", 9, 1>>, Un("assign", 9, 9), Un("pos", 1, 1),
                        Bin("mul", 6, 1, 8), Un("mean", 7, 6), <<"back", 7>>, <<"zerog", 1>>, Sl(10, 1, 0, <<Ix(1), RngF(1, 1, 0, 0, 0, 0)>>), Bin("div", 11, 10, 8), Un("sum", 12, 10), <<"back", 12>>,
                        <<"zerog", 1>>, Un("max", 13, 1), <<"back", 13>>, Un("detach", 14, 1), <<"iadd", 14, 8>>, Un("abs", 6, 1), Un("sum", 7, 6), <<"back", 7>>, <<"zerog", 1>>>>>>)])])

(*************************** the extremes of the types *********************)
\* written in decimal: TLC itself cannot hold them (they are read by spec/wide/Num.tla)
WideVals(t) ==
  CASE t = 0 -> <<"127", "-128", "1", "-1", "0", "-127", "64", "-3">>
    [] t = 1 -> <<"32767", "-32768", "1", "-1", "0", "256", "-32767", "181">>
    [] t = 2 -> <<"2147483647", "-2147483648", "1", "-1", "0", "16777217", "-2147483647", "46341", "46340", "-65536", "1073741825", "3">>
    [] t = 3 -> <<"9223372036854775807", "-9223372036854775808", "1", "-1", "0", "9007199254740993", "-9223372036854775807", "4294967296",
                  "-4294967297", "3037000499", "2147483648", "-2147483649", "4611686018427387904", "7", "16777217", "1000000007">>
    [] t = 4 -> <<"16777216", "-16777218", "1", "-1", "0", "2147483648", "9223372036854775807", "4097", "9007199254740992">>
    [] t = 5 -> <<"9007199254740992", "-9007199254740991", "1", "-1", "0", "4611686018427387904", "-2147483649", "94906267", "16777217", "2147483649", "9007199254740991">>
WLit(d, t, z, v) == <<"lit", d, t>> \o Z(z) \o <<Len(v)>> \o Flat([k \in 1..Len(v) |-> <<v[k], 0>>])
WNoZero(v) == [k \in 1..Len(v) |-> IF v[k] = "0" THEN "5" ELSE v[k]]
\* every value of t against every value of u, by broadcasting
WideProgs(suite) ==
  LET tt == Pairs(Six, Six)
  IN [k \in 1..36 |->
       LET t == tt[k][1]  u == tt[k][2]
           v == WideVals(t)  w == WideVals(u)
       IN <<Begin, WLit(1, t, <<Len(v), 1>>, v), WLit(2, u, <<1, Len(w)>>, w), WLit(3, u, <<1, Len(w)>>, WNoZero(w))>>
          \o [i \in 1..3 |-> Bin(BinOps[i], 4, 1, 2)] \o <<Bin("div", 4, 1, 3)>>
          \o [i \in 1..6 |-> Bin(AllBin[i + 4], 4, 1, 2)]
          \o <<<<"type", 5, 1, u>>, <<"transpose", 6, 2, 0, 1, 0>>, <<"cat", 7, 2, 1, 6, 0>>,
               WLit(8, t, <<Len(v), Len(w)>>, [i \in 1..(Len(v) * Len(w)) |-> "0"]), <<"iadd", 8, 1>>, <<"iadd", 8, 2>>, <<"show", 8>>>>]
     \o Flat([t \in 1..6 |->
          LET v == WideVals(t - 1)
          IN <<<<Begin, WLit(1, t - 1, <<Len(v)>>, v), Un("neg", 2, 1), Un("abs", 2, 1), Un("max", 2, 1), Un("min", 2, 1), Un("clone", 2, 1), <<"all", 1>>, <<"show", 1>>,
                Sl(3, 1, 0, <<RngF(0, 0, 0, 0, 1, -2)>>), Un("sum", 4, 3), Un("mean", 4, 3), Un("max", 4, 3), Un("min", 4, 3), <<"reshape", 5, 3, 2, 2, -1, 0>>,
                Un("zlike", 6, 1), <<"iadd", 6, 1>>, Un("sum", 4, 1),
                Un("clone", 7, 3), Un("cont", 7, 3), Un("detach", 7, 3), <<"type", 7, 3, t - 1>>, <<"cat", 7, 2, 1, 3, 0>>, <<"cat", 7, 1, 3, 0>>, Bin("eq", 8, 7, 3), <<"reshape", 9, 1, 2, -1, 1, 0>>, <<"transpose", 10, 9, 0, 1, 0>>,
                Un("cont", 7, 10), Un("clone", 7, 10), <<"reshape", 7, 10, 1, -1, 0>>, Un("pos", 7, 3), <<"show", 7>>, <<"iadd", 3, 7>>>>>>
             \o [i \in 1..Len(v) |-> <<Begin, <<"scal", 1, t - 1, 1, v[i], 0>>, <<"fulli", 2, t - 1, 1, 2, 1, v[i], 0>>, <<"fulld", 3, t - 1, 1, 2, 1, v[i], 0>>, <<"fulli", 4, 3, 1, 3, 1, v[i], 0>>,
                 Un("sum", 5, 1), Un("mean", 5, 1), Un("sum", 5, 2), Un("mean", 5, 2), Un("max", 6, 1), Un("abs", 7, 1), Un("neg", 8, 1), Bin("sub", 9, 1, 2), Bin("sub", 10, 1, 3), <<"type", 11, 4, t - 1>>, <<"type", 12, 1, 3>>, <<"type", 13, 12, 2>>, <<"type", 13, 12, 5>>, <<"type", 13, 12, 4>>, <<"all", 1>>>>]
             \o \* sums and means of two and three values that cancel or nearly do
                [i \in 1..Len(v) |-> LET a == v[i]  b == v[(i % Len(v)) + 1]  c == v[((i + 3) % Len(v)) + 1]
                   IN <<Begin, WLit(1, t - 1, <<2>>, <<a, b>>), Un("sum", 2, 1), Un("mean", 2, 1), Un("max", 2, 1), Un("min", 2, 1),
                        WLit(3, t - 1, <<3, 1>>, <<a, c, b>>), Un("sum", 2, 3), Un("mean", 2, 3), Un("max", 2, 3), Un("min", 2, 3), Bin("eq", 4, 1, 3)>>]])

(*************************** sizes *****************************************)
\* extents beyond 8 and 16 bits, many dimensions, many operands
Ended(n, x, y) == [k \in 1..n |-> <<IF k = n THEN y ELSE IF k = n - 44 THEN x ELSE ((k * 7) % 11) - 5, 0>>]
All == RngF(0, 0, 0, 0, 0, 0)
From(b) == RngF(1, b, 0, 0, 0, 0)
To(e) == RngF(0, 0, 1, e, 0, 0)
By(s) == RngF(0, 0, 0, 0, 1, s)
SizeProgs(suite) ==
  LET n == 300
      one(t) ==
        <<Begin, Lit(1, t, <<n>>, Ended(n, -90, 100)), Sl(2, 1, 0, <<From(250)>>), Sl(3, 1, 1, <<By(-1)>>), Sl(4, 1, 2, <<Ix(299)>>), Sl(4, 1, 2, <<Ix(-300)>>), Sl(4, 1, 2, <<Ix(256)>>),
          Sl(4, 1, 0, <<RngF(1, -1, 1, -301, 1, -7)>>), Sl(4, 1, 0, <<By(128)>>), Sl(4, 1, 0, <<By(-256)>>), Sl(4, 1, 0, <<Ix(300)>>),
          Un("sum", 5, 1), Un("mean", 5, 1), Un("max", 5, 1), Un("min", 5, 1), Un("max", 5, 3), Un("min", 5, 3), Un("abs", 5, 1), Un("neg", 5, 3), <<"all", 1>>, <<"show", 1>>,
          <<"reshape", 6, 1, 2, 2, -1, 0>>, <<"transpose", 7, 6, 0, 1, 0>>, Un("sum", 5, 7), Un("max", 5, 7), Un("clone", 5, 7), <<"reshape", 8, 7, 1, -1, 0>>, <<"reshape", 8, 3, 2, 150, 2, 0>>,
          <<"cat", 8, 2, 1, 3, 0>>, <<"cat", 9, 2, 6, 6, 1>>, <<"cat", 9, 3, 7, 7, 7, 1>>, <<"type", 10, 1, (t + 2) % 6>>, <<"type", 10, 3, (t + 1) % 6>>,
          Lit(11, (t + Seed) % 6, <<2, 1>>, <<<<3, 0>>, <<-2, 0>>>>), Bin("add", 12, 1, 11), Bin("sub", 12, 11, 3), Bin("mul", 12, 1, 11), Bin("div", 12, 1, 11), Bin("eq", 12, 1, 3), Bin("lt", 12, 3, 1), Bin("ge", 12, 11, 1),
          Bin("add", 12, 7, 7), Bin("mul", 12, 1, 3), Un("zlike", 13, 7), Un("olike", 13, 3), <<"iadd", 2, 2>>, Lit(14, 2, <<>>, <<<<5, 0>>>>), <<"iadd", 3, 14>>, <<"iadd", 13, 3>>,
          <<"iadd", 7, 12>>, Sl(2, 1, 0, <<From(299)>>), <<"iadd", 2, 14>>, <<"fulli", 4, t, 2, 20, 17, 1, 9, 0>>, <<"zeros", 4, t, 2, 17, 20>>, <<"ones", 4, t, 1, 300>>, <<"eye", 4, t, 17, 19, 0>>>>
      \* all(): the only zero is at the end, or behind 256 others
      none(t, k) == <<Begin, Lit(1, t, <<n>>, [i \in 1..n |-> <<IF i = k THEN 0 ELSE (i % 100) + 1, 0>>]), <<"all", 1>>, Sl(2, 1, 0, <<By(-1)>>), <<"all", 2>>,
                      <<"reshape", 3, 1, 3, 3, 10, 10, 0>>, <<"transpose", 4, 3, 0, 2, 0>>, <<"all", 4>>, Un("min", 5, 4), Un("max", 5, 4), Un("min", 5, 1)>>
      grads(t) ==
        LET o == <<"slice", "max", "mean", "cat", "bcast", "two", "back", "abs", "div">>
        IN [i \in 1..Len(o) |->
             <<Begin, Lit(1, t, <<n>>, Ended(n, -90, 100)), <<"setrg", 1, 1>>, Lit(2, 5, <<2, 1>>, <<<<3, 0>>, <<-2, 0>>>>), <<"setrg", 2, 1>>>>
             \o (CASE o[i] = "slice" -> <<Sl(3, 1, 0, <<From(250)>>), Bin("mul", 4, 3, 2)>>
                   [] o[i] = "max" -> <<Un("max", 3, 1), Un("min", 5, 1), Bin("mul", 4, 3, 2), Bin("mul", 4, 4, 5)>>
                   [] o[i] = "mean" -> <<Un("mean", 3, 1), Bin("mul", 4, 3, 2)>>
                   [] o[i] = "cat" -> <<<<"cat", 3, 2, 1, 1, 0>>, Bin("mul", 4, 3, 2)>>
                   [] o[i] = "bcast" -> <<Bin("mul", 3, 1, 2), Bin("mul", 4, 3, 1)>>
                   [] o[i] = "two" -> <<<<"reshape", 3, 1, 2, 2, 150, 0>>, <<"transpose", 5, 3, 0, 1, 0>>, Bin("mul", 4, 5, 5), Bin("mul", 4, 3, 2)>>
                   [] o[i] = "back" -> <<Sl(3, 1, 0, <<By(-1)>>), Bin("mul", 4, 3, 1)>>
                   [] o[i] = "abs" -> <<Un("abs", 3, 1), Bin("sub", 4, 3, 2)>>
                   [] OTHER -> <<Bin("div", 3, 1, 2), Un("neg", 4, 3)>>)
             \o <<Un("sum", 6, 4), <<"back", 6>>>>]
      m == 66000
      seven(t) == Lit(3, t, <<>>, <<<<7, 0>>>>)
      huge(t) ==
        <<<<Begin, <<"zeros", 1, t, 1, m>>, Sl(2, 1, 0, <<From(65530)>>), seven(t), <<"iadd", 2, 3>>, Sl(4, 1, 0, <<Ix(463)>>), Sl(4, 1, 0, <<Ix(-1)>>), <<"iadd", 4, 3>>, Un("sum", 5, 1), Un("mean", 5, 1), Un("max", 5, 1), Un("min", 5, 1), <<"all", 1>>>>,
          <<Begin, <<"fulli", 1, t, 1, m, 1, 1, 0>>, <<"all", 1>>, Sl(2, 1, 0, <<From(65999)>>), Lit(3, t, <<>>, <<<<-1, 0>>>>), <<"iadd", 2, 3>>, <<"all", 1>>, Un("min", 4, 1), Un("sum", 4, 1)>>,
          <<Begin, <<"zeros", 1, t, 2, 2, 33000>>, Sl(2, 1, 0, <<All, From(32990)>>), seven(t), <<"iadd", 2, 3>>, <<"transpose", 4, 1, 0, 1, 0>>, <<"drop", 1>>, Sl(5, 4, 0, <<From(32985)>>), Un("clone", 4, 4), Sl(5, 4, 0, <<RngF(1, 32985, 0, 0, 0, 0), Ix(1)>>), <<"reshape", 4, 4, 1, -1, 0>>, Sl(5, 4, 0, <<From(65965)>>)>>,
          <<Begin, <<"zeros", 1, t, 1, m>>, Sl(2, 1, 0, <<From(65530)>>), seven(t), <<"iadd", 2, 3>>, Bin("add", 1, 1, 3), Sl(4, 1, 0, <<RngF(1, 65525, 1, 65535, 0, 0)>>), Bin("eq", 1, 1, 3), Sl(4, 1, 0, <<RngF(1, 65525, 1, 65535, 0, 0)>>), Un("sum", 4, 1), <<"type", 1, 1, (t + 3) % 6>>, Sl(4, 1, 0, <<RngF(1, 65525, 1, 65535, 0, 0)>>)>>,
          <<Begin, <<"zeros", 1, t, 2, 1, 33000>>, Sl(2, 1, 0, <<All, From(32996)>>), seven(t), <<"iadd", 2, 3>>, <<"cat", 1, 2, 1, 1, 1>>, Sl(4, 1, 0, <<All, From(65990)>>), Sl(4, 1, 0, <<All, RngF(1, 32990, 1, 33002, 0, 0)>>)>>>>
      hugegrad(t) ==
        <<<<Begin, <<"ones", 1, t, 1, m>>, <<"setrg", 1, 1>>, Sl(2, 1, 0, <<From(65996)>>), Bin("mul", 3, 2, 2), Un("sum", 4, 3), Un("mean", 5, 1), Bin("add", 6, 4, 5), Un("sum", 7, 6), <<"back", 7>>, Un("gcopy", 1, 1), Sl(9, 1, 0, <<From(65990)>>), Sl(9, 1, 0, <<Ix(460)>>)>>,
          <<Begin, <<"ones", 1, t, 1, m>>, <<"setrg", 1, 1>>, Lit(10, 5, <<>>, <<<<2, 0>>>>), <<"setrg", 10, 1>>, Bin("mul", 11, 1, 10), Un("sum", 11, 11), <<"back", 11>>, Un("gcopy", 1, 1), Sl(9, 1, 0, <<From(65990)>>)>>>>
      ranks ==
        LET zs == <<<<1, 2, 1, 2, 1, 2, 1, 2>>, <<2, 1, 1, 1, 1, 1, 1, 1, 1, 3>>, <<2, 2, 2, 2, 2, 2, 2>>, <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>, <<3, 1, 2, 1, 1, 2, 1, 1, 2>>>>
        IN [k \in 1..Len(zs) |->
             LET z == zs[k]  r == Len(z)
             IN <<Begin, Some(1, 4 + (k % 2), z, 1), <<"setrg", 1, 1>>, <<"transpose", 2, 1, 0, r - 1, 0>>, <<"transpose", 3, 2, 2, r - 2, 0>>, <<"show", 3>>, Some(4, 5, <<2, 1, 1, 1>>, 1), <<"setrg", 4, 1>>, Some(5, 2, [i \in 1..r |-> IF i % 3 = 0 THEN z[i] ELSE 1], 0),
                  Bin("mul", 6, 1, 4), Bin("add", 6, 1, 5), Bin("mul", 7, 6, 1), Bin("sub", 8, 7, 5), <<"cat", 9, 3, 8, 8, 8, r - 1>>, Sl(10, 9, 0, [i \in 1..r |-> IF i % 2 = 0 THEN By(-1) ELSE IF i % 3 = 0 THEN Ix(-1) ELSE All]),
                  <<"reshape", 11, 10, 1, -1, 0>>, <<"reshape", 12, 3, 2, -1, 1, 0>>, Un("cont", 13, 3), Un("sum", 14, 10), <<"back", 14>>, Un("detach", 15, 3), <<"iadd", 15, 5>>, <<"all", 1>>, <<"type", 15, 3, 9 - (4 + (k % 2))>>>>]
      many(q, d) ==
        <<Begin, Some(1, 4, <<2, 2>>, 1), <<"setrg", 1, 1>>, Some(2, 5, <<2, 2>>, 1), <<"setrg", 2, 1>>, Some(3, 1, <<2, 2>>, 0), <<"cat", 4, q>> \o [i \in 1..q |-> ((i * i) % 3) + 1] \o <<d>>,
          Bin("mul", 5, 4, 4), Un("mean", 6, 5), <<"back", 6>>, <<"cat", 4, q + 1>> \o [i \in 1..(q + 1) |-> 2] \o <<d>>, Un("sum", 6, 4), <<"back", 6>>>>
  IN IF IOEnv.SUITE = "huge"
     THEN (IF Thorough THEN Flat([t \in 1..6 |-> huge(t - 1)]) ELSE huge((Seed + 4) % 6)) \o hugegrad(4 + (Seed % 2))
     ELSE [t \in 1..6 |-> one(t - 1)] \o Flat([t \in 1..6 |-> [k \in 1..4 |-> none(t - 1, <<300, 257, 1, 0>>[k])]]) \o grads(4) \o grads(5) \o ranks
     \o <<many(40, 0), many(33, 1)>>

\* chains and fans that are long: the executor builds them and says what the gradient is
DeepProgs(suite) ==
  LET f == IF Thorough THEN 4 ELSE 1
  IN <<<<Begin, <<"deep", 30000 * f, 0>>>>, <<Begin, <<"deep", 30000 * f, 1>>>>, <<Begin, <<"deep", 300 * f, 2>>, <<"deep", 28, 4>>, <<"deep", 1, 2>>, <<"deep", 1, 4>>>>, <<Begin, <<"deep", 300 * f, 6>>, <<"deep", 66000, 6>>>>, <<Begin, <<"deep", 300 * f, 7>>>>, <<Begin, <<"deep", 30000 * f, 3>>>>,
       <<Begin, <<"deep", 50000 * f, 5>>>>, <<Begin, <<"soak", 3000 * f>>, <<"mem">>>>>>
PassesProgs(suite) == <<<<Begin, <<"deep", IF Thorough THEN 200000 ELSE 66000, 8>>>>>>
StatProgs(suite) ==
  Flat([t \in 1..2 |-> [k \in 1..4 |-> <<Begin, <<"randstat", t + 3, IF Thorough THEN 200000 ELSE IF k = 1 THEN 70000 ELSE 20000, k - 1>>>>]])

(*************************** the suite *************************************)
\* (the suites have a parameter because TLC evaluates every definition without one)
Progs(suite) == CASE IOEnv.SUITE = "slice" -> SliceProgs(IOEnv.SUITE) \o Slice2Progs(IOEnv.SUITE)
           [] IOEnv.SUITE = "text" -> TextProgs(IOEnv.SUITE)
           [] IOEnv.SUITE = "broadcast" -> BroadcastProgs(IOEnv.SUITE)
           [] IOEnv.SUITE = "bgrad" -> BroadcastGradProgs(IOEnv.SUITE)
           [] IOEnv.SUITE = "types" -> TypeProgs(IOEnv.SUITE)
           [] IOEnv.SUITE = "mixed" -> MixedGradProgs(IOEnv.SUITE)
           [] IOEnv.SUITE = "ieee" -> IeeeProgs(IOEnv.SUITE)
           [] IOEnv.SUITE = "reshape" -> ReshapeProgs(IOEnv.SUITE) \o TransposeProgs(IOEnv.SUITE) \o ImpossibleReshapes(IOEnv.SUITE)
           [] IOEnv.SUITE = "cat" -> CatProgs(IOEnv.SUITE)
           [] IOEnv.SUITE = "grads" -> GradProgs(IOEnv.SUITE)
           [] IOEnv.SUITE = "literal" -> LiteralProgs(IOEnv.SUITE)
           [] IOEnv.SUITE = "ctor" -> CtorProgs(IOEnv.SUITE) \o ImpossibleProgs(IOEnv.SUITE)
           [] IOEnv.SUITE = "reduce" -> ReduceProgs(IOEnv.SUITE)
           [] IOEnv.SUITE = "layout" -> LayoutProgs(IOEnv.SUITE)
           [] IOEnv.SUITE \in {"size", "huge"} -> SizeProgs(IOEnv.SUITE)
           [] IOEnv.SUITE = "deep" -> DeepProgs(IOEnv.SUITE)
           [] IOEnv.SUITE = "passes" -> PassesProgs(IOEnv.SUITE)
           [] IOEnv.SUITE = "stat" -> StatProgs(IOEnv.SUITE)
           [] IOEnv.SUITE = "wide" -> WideProgs(IOEnv.SUITE)

ASSUME ndJsonSerialize(IOEnv.OUT, Progs(IOEnv.SUITE))
=============================================================================
