-------------------------------- MODULE PySeq --------------------------------
(***************************************************************************)
(* Python sequence semantics, as pure operators.                           *)
(*                                                                         *)
(* An element is an integer code 100*rank + tag.  Two elements are equal   *)
(* (Python ==) iff their ranks are equal; the natural order is the order   *)
(* of the ranks; the tag tells equal-but-distinct objects apart (1, 1.0).  *)
(* A key function is named by a number kf; K(kf, x) is the comparison key  *)
(* it extracts.  kf = 0 is the natural order.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

NONE == 1000001          \* Python's None as an index / bound
HUGE == 1000000          \* any index beyond +-10^6 is recorded as this

Rank(x) == x \div 100
Tag(x)  == x % 100

KR(kf, r) == IF kf = 0 THEN r
             ELSE IF kf = 1 THEN 0 - r
             ELSE IF kf = 2 THEN r \div 4
             ELSE IF kf = 3 THEN r % 3
             ELSE IF kf = 4 THEN 0
             ELSE IF kf = 6 THEN r
             ELSE 0 - (r \div 2)
K(kf, x) == KR(kf, Rank(x))

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Ranks(s) == {Rank(s[i]) : i \in DOMAIN s}

SortedBy(kf, s) == \A i \in 1 .. Len(s) - 1 : K(kf, s[i]) <= K(kf, s[i + 1])

-----------------------------------------------------------------------------
(* Bisection.  q2 is twice the key searched for, so that keys lying        *)
(* strictly between two stored keys can be expressed.  BisLDef / BisRDef   *)
(* are the definitions; BisL / BisR compute them on sorted sequences       *)
(* (PySeqMC checks that they agree).                                       *)

BisLDef(kf, s, q2) == Cardinality({i \in DOMAIN s : 2 * K(kf, s[i]) < q2})
BisRDef(kf, s, q2) == Cardinality({i \in DOMAIN s : 2 * K(kf, s[i]) <= q2})

RECURSIVE BLrec(_, _, _, _, _)
BLrec(kf, s, q2, lo, hi) ==
  IF lo >= hi THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF 2 * K(kf, s[m + 1]) < q2 THEN BLrec(kf, s, q2, m + 1, hi)
          ELSE BLrec(kf, s, q2, lo, m)

RECURSIVE BRrec(_, _, _, _, _)
BRrec(kf, s, q2, lo, hi) ==
  IF lo >= hi THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF q2 < 2 * K(kf, s[m + 1]) THEN BRrec(kf, s, q2, lo, m)
          ELSE BRrec(kf, s, q2, m + 1, hi)

BisL(kf, s, q2) == BLrec(kf, s, q2, 0, Len(s))
BisR(kf, s, q2) == BRrec(kf, s, q2, 0, Len(s))

\* The same, on the sequence of doubled keys ks = KSeq(kf, s) (computed once
\* per event; SubSeq makes TLC evaluate it).
KSeq(kf, s) == SubSeq([j \in 1 .. Len(s) |-> 2 * K(kf, s[j])], 1, Len(s))

RECURSIVE IBLrec(_, _, _, _)
IBLrec(ks, q2, lo, hi) ==
  IF lo >= hi THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF ks[m + 1] < q2 THEN IBLrec(ks, q2, m + 1, hi) ELSE IBLrec(ks, q2, lo, m)

RECURSIVE IBRrec(_, _, _, _)
IBRrec(ks, q2, lo, hi) ==
  IF lo >= hi THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF q2 < ks[m + 1] THEN IBRrec(ks, q2, lo, m) ELSE IBRrec(ks, q2, m + 1, hi)

IBisL(ks, q2) == IBLrec(ks, q2, 0, Len(ks))
IBisR(ks, q2) == IBRrec(ks, q2, 0, Len(ks))

-----------------------------------------------------------------------------
(* Indexing and slicing (CPython PySlice_AdjustIndices).                   *)

NormIdx(i, n) == IF i < 0 THEN i + n ELSE i
InRange(i, n) == NormIdx(i, n) >= 0 /\ NormIdx(i, n) < n
At(s, i)      == s[NormIdx(i, Len(s)) + 1]

AdjBound(b, n, lower, upper) ==
  IF b < 0 THEN Max2(b + n, lower) ELSE Min2(b, upper)

\* <<start, step, count>>; step must not be 0
SliceIdx(a, b, c, n) ==
  LET step  == IF c = NONE THEN 1 ELSE c
      lower == IF step < 0 THEN -1 ELSE 0
      upper == IF step < 0 THEN n - 1 ELSE n
      start == IF a = NONE THEN (IF step < 0 THEN upper ELSE lower)
               ELSE AdjBound(a, n, lower, upper)
      stop  == IF b = NONE THEN (IF step < 0 THEN lower ELSE upper)
               ELSE AdjBound(b, n, lower, upper)
      cnt   == IF step < 0
               THEN (IF stop < start THEN (start - stop - 1) \div (0 - step) + 1 ELSE 0)
               ELSE (IF start < stop THEN (stop - start - 1) \div step + 1 ELSE 0)
  IN <<start, step, cnt>>

Slice(s, a, b, c) ==
  LET t == SliceIdx(a, b, c, Len(s))
  IN [j \in 1 .. t[3] |-> s[t[1] + (j - 1) * t[2] + 1]]

SlicePos(a, b, c, n) ==          \* the 0-based positions a slice denotes
  LET t == SliceIdx(a, b, c, n) IN {t[1] + (j - 1) * t[2] : j \in 1 .. t[3]}

DelPos(s, P) ==                  \* s without the 0-based positions in P
  LET ix == SelectSeq([i \in 1 .. Len(s) |-> i], LAMBDA i : (i - 1) \notin P)
  IN [j \in 1 .. Len(ix) |-> s[ix[j]]]

Flat(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)

DelAt0(s, p) == SubSeq(s, 1, p) \o SubSeq(s, p + 2, Len(s))

-----------------------------------------------------------------------------
(* Sorted insertion: right of every element whose key is not greater.      *)

Ins(kf, s, x) ==
  LET p == BisR(kf, s, 2 * K(kf, x))
  IN SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))

InsAllDef(kf, s, xs) == FoldLeft(LAMBDA acc, x : Ins(kf, acc, x), s, xs)

\* The stable sorting permutation of z, by sorting the numbers key * N + position.
SortPerm(kf, z) ==
  LET N  == Len(z) + 1
      cs == SetToSortSeq({K(kf, z[j]) * N + j : j \in 1 .. Len(z)}, LAMBDA x, y : x < y)
  IN SubSeq([j \in 1 .. Len(z) |-> cs[j] % N], 1, Len(z))
StableSort(kf, z) ==
  LET p == SortPerm(kf, z) IN SubSeq([j \in 1 .. Len(z) |-> z[p[j]]], 1, Len(z))

\* Inserting one by one into a sorted s is sorting s followed by xs.
InsAll(kf, s, xs) == IF Len(xs) <= 8 THEN InsAllDef(kf, s, xs) ELSE StableSort(kf, s \o xs)

\* first position (0-based) of an element equal to x, or -1
FirstEqDef(s, x) ==
  LET P == {p \in 1 .. Len(s) : Rank(s[p]) = Rank(x)}
  IN IF P = {} THEN -1 ELSE (CHOOSE p \in P : \A q \in P : p <= q) - 1
CountEqDef(s, x) == Cardinality({p \in 1 .. Len(s) : Rank(s[p]) = Rank(x)})

\* The same on a sequence sorted by kf: equal elements have equal keys.
FirstEqIn(s, x, lo, hi) ==
  LET p  == IF lo >= hi THEN 0
            ELSE IF lo + 1 = hi THEN (IF Rank(s[hi]) = Rank(x) THEN 1 ELSE 0)
            ELSE SelectInSeq(SubSeq(s, lo + 1, hi), LAMBDA y : Rank(y) = Rank(x))
  IN IF p = 0 THEN -1 ELSE lo + p - 1
CountEqIn(s, x, lo, hi) == Cardinality({p \in lo + 1 .. hi : Rank(s[p]) = Rank(x)})
FirstEq(kf, s, x) ==
  LET q  == 2 * K(kf, x) IN FirstEqIn(s, x, BisL(kf, s, q), BisR(kf, s, q))

Rep(s, n) == IF n <= 0 THEN <<>> ELSE Flat([i \in 1 .. n |-> s])

=============================================================================
