------------------------------ MODULE Strided -------------------------------
(***************************************************************************)
(* The representation behind views (StridedLayout: extents, strides and an *)
(* offset into a storage) and the algorithms on it (TensorImpl::operator[],*)
(* transpose, reshape, is_contiguous), refined against the definition: a   *)
(* view is a map from its elements to addresses (ad), and a call composes  *)
(* that map with the one Layout gives for it.                              *)
(*                                                                         *)
(* The views of a storage are finitely many, so the machine is explored to *)
(* its end: what is checked holds for chains of views of any length.       *)
(* Each view is printed with a shortest chain that leads to it, as a       *)
(* program that takes the view, writes through it and differentiates       *)
(* through it.                                                             *)
(***************************************************************************)
EXTENDS Layout, FiniteSets, Json, IOUtils

CONSTANTS Roots,     \* the shapes of the storages
          MaxRank,   \* of reshaped views
          All        \* every way to spell a bound of a slice, or one of each kind

QuickRoots == {<<4>>, <<2, 3>>, <<2, 1>>, <<0, 2>>}
BigRoots == QuickRoots \cup {<<6>>, <<2, 2>>, <<3, 1>>, <<2, 1, 2>>}

VARIABLES root, sz, sr, off,   \* the representation
          ad,                  \* the definition: element -> address (from 1)
          chain                \* the calls that led here
vars == <<root, sz, sr, off, ad, chain>>

(************************* the algorithms of the library *******************)
Abs(n) == IF n < 0 THEN -n ELSE n
None == [n |-> 0, w |-> 0, o |-> 0]
\* one dimension of extent n and stride w; f as in Layout: extent, stride and what is added to the offset
Range1(n, w, f) ==
  LET step == IF f[6] = 1 THEN f[7] ELSE 1
      b0 == IF f[2] = 0 THEN IF step > 0 THEN 0 ELSE n - 1 ELSE IF f[3] < 0 THEN f[3] + n ELSE f[3]
      b == IF b0 < 0 THEN 0 ELSE IF b0 >= n THEN n - 1 ELSE b0
      nob == f[2] = 1 /\ ((b0 < 0 /\ step < 0) \/ (b0 >= n /\ step > 0))
      e0 == IF f[4] = 0 THEN IF step > 0 THEN n ELSE -1 ELSE IF f[5] < 0 THEN f[5] + n ELSE f[5]
      noe == f[4] = 1 /\ IF step > 0 THEN e0 <= 0 ELSE e0 >= n - 1
      e == IF step > 0 THEN IF e0 > n THEN n ELSE e0 ELSE IF e0 < 0 THEN -1 ELSE e0
  IN IF n = 0 \/ nob \/ noe \/ (step > 0 /\ b >= e) \/ (step < 0 /\ b <= e) THEN None
     ELSE [n |-> ((Abs(e - b) - 1) \div Abs(step)) + 1, w |-> step * w, o |-> b * w]

SliceRep(f, d) ==       \* f in dimension d
  IF f[1] = 0
  THEN LET i == IF f[2] < 0 THEN f[2] + sz[d] ELSE f[2]
       IN <<RemoveAt(sz, d), RemoveAt(sr, d), off + sr[d] * i>>
  ELSE LET whole == [j \in 1..Len(sz) |-> Range1(sz[j], sr[j], IF j = d THEN f ELSE <<1, 0, 0, 0, 0, 0, 0>>)]
       IN <<[j \in 1..Len(sz) |-> whole[j].n], [j \in 1..Len(sz) |-> whole[j].w],
            FoldLeft(LAMBDA a, j : a + whole[j].o, off, Iota(Len(sz)))>>

Swap(q, i, j) == [q EXCEPT ![i] = q[j], ![j] = q[i]]

Contiguous ==
  \A d \in 1..Len(sz) : sr[d] = Numel(SubSeq(sz, d + 1, Len(sz)))

\* Two representations of one view differ in the strides of extents 0 and 1, which
\* multiply no index other than 0 (and grow without end under "::2").
Seen == <<root, sz, ad, Contiguous>>

(************************* calls *******************************************)
Fields(n) ==
  LET at == {<<0, 0>>} \cup {<<1, i>> : i \in IF All THEN (-n - 1)..(n + 1) ELSE {-n - 1, -1, 0, n + 1} \cup 0..(n - 1)}
      by == {<<0, 0>>} \cup ({<<1, s>> : s \in IF All THEN {-n - 1, -2, -1, 1, 2, n} ELSE {-2, -1, 2}} \ {<<1, 0>>})
  IN {<<1, b[1], b[2], e[1], e[2], s[1], s[2]>> : b \in at, e \in at, s \in by} \cup {<<0, i>> : i \in (-n)..(n - 1)}

Take ==
  \E d \in 1..Len(sz) : \E f \in Fields(sz[d]) :
    LET fs == [j \in 1..d |-> IF j = d THEN f ELSE <<1, 0, 0, 0, 0, 0, 0>>]
        r == SliceRep(f, d)
        m == SliceMap(sz, fs)
    IN /\ sz' = r[1] /\ sr' = r[2] /\ off' = r[3]
       /\ ad' = [k \in 1..Len(m) |-> ad[m[k]]]
       /\ Assert(r[1] = SliceShape(sz, fs), <<"shape", sz, fs>>)
       /\ chain' = Append(chain, <<"slice", d, f>>)

Turn ==
  \E i, j \in 1..Len(sz) :
    /\ i < j
    /\ sz' = Swap(sz, i, j) /\ sr' = Swap(sr, i, j) /\ off' = off
    /\ ad' = LET c == Canon(sz) IN LET m == Walk(Swap(sz, i, j), Swap(c, i, j), 1) IN [k \in 1..Len(ad) |-> ad[m[k]]]
    /\ chain' = Append(chain, <<"transpose", i - 1, j - 1>>)

Shapes == {z \in UNION {[1..r -> 1..Numel(root)] : r \in 0..MaxRank} : Numel(z) = Numel(sz)}
Fold ==
  /\ Contiguous /\ Numel(sz) > 0        \* otherwise the elements are copied
  /\ \E z \in Shapes :
       /\ z # sz
       /\ sz' = z /\ sr' = Canon(z) /\ off' = off
       /\ ad' = ad
       /\ chain' = Append(chain, <<"reshape">> \o z)

Init ==
  /\ root \in Roots
  /\ sz = root /\ sr = Canon(root) /\ off = 0
  /\ ad = Iota(Numel(root)) /\ chain = <<>>
Next == (Take \/ Turn \/ Fold) /\ UNCHANGED root
Spec == Init /\ [][Next]_vars

(************************* what holds **************************************)
\* the representation is the definition
Refines == Walk(sz, sr, off + 1) = ad
\* no address outside the storage, none twice
InStorage == /\ \A k \in 1..Len(ad) : ad[k] \in 1..Numel(root)
             /\ \A j, k \in 1..Len(ad) : j # k => ad[j] # ad[k]
\* contiguity means: the addresses are consecutive (and is said unless an extent is 0 or 1)
ContiguousIs == /\ Contiguous => \A k \in 1..Len(ad) : ad[k] = ad[1] + k - 1
                /\ (~Contiguous /\ \A d \in 1..Len(sz) : sz[d] > 1) => \E k \in 1..Len(ad) : ad[k] # ad[1] + k - 1
\* the algorithm takes the offset of an empty slice from the dimensions that are not empty; nobody reads there
OffsetInside == Len(ad) > 0 => off \in 0..(Numel(root) - 1)

(************************* programs ****************************************)
Z(s) == <<Len(s)>> \o s
Calls(first, cur) ==
  [k \in 1..Len(chain) |->
     LET c == chain[k]  a == IF k = 1 THEN first ELSE cur
     IN CASE c[1] = "slice" -> <<"slice", cur, a, k % 3, c[2]>> \o FlattenSeq([j \in 1..c[2] |-> IF j = c[2] THEN c[3] ELSE <<1, 0, 0, 0, 0, 0, 0>>])
          [] c[1] = "transpose" -> <<"transpose", cur, a, c[2], c[3], k % 2>>
          [] c[1] = "reshape" -> <<"reshape", cur, a>> \o Z(Tail(c)) \o <<k % 2>>]
\* as with a history of its own: taken, described, copied, written through, differentiated
Prog ==
  LET n == Numel(root)  t == (n + Len(chain) + off) % 6
  IN <<<<"begin">>, <<"lit", 1, t>> \o Z(root) \o <<n>> \o FlattenSeq([k \in 1..n |-> <<k, 0>>])>>
     \o Calls(1, 2)
     \o <<<<"show", 2>>, <<"clone", 3, 2>>, <<"scal", 4, t, 1, 10, 0>>, <<"iadd", 2, 4>>, <<"sum", 5, 2>>, <<"cont", 5, 2>>, <<"max", 5, 2>>, <<"neg", 5, 2>>, <<"all", 2>>,
          <<"type", 6, 1, 4 + (t % 2)>>, <<"setrg", 6, 1>>>>
     \o Calls(6, 7)
     \o <<<<"mul", 8, 7, 7>>, <<"sum", 9, 8>>, <<"back", 9>>>>
Reached == chain # <<>> => PrintT("PROG " \o ToJson(Prog))
=============================================================================
