------------------------------- MODULE PySeqMC --------------------------------
(***************************************************************************)
(* The operators of PySeq and Contract that compute are checked against    *)
(* those that define, on every sorted sequence up to MaxLen over Ranks and *)
(* Tags, for every key function.                                           *)
(***************************************************************************)
EXTENDS Contract

CONSTANTS MaxLen, MaxRank, MaxTag, KFs

VARIABLES kf, s

Elems == {100 * r + t : r \in 0 .. MaxRank, t \in 0 .. MaxTag}

Init == kf \in KFs /\ s = <<>>
Next == Len(s) < MaxLen /\ kf' = kf /\ \E x \in Elems : s' = Ins(kf, s, x)
Spec == Init /\ [][Next]_<<kf, s>>

Q2 == {2 * K(kf, x) + d : x \in Elems, d \in {-1, 0, 1}}
Ixs == (0 - MaxLen - 1) .. MaxLen + 1 \union {NONE, HUGE, 0 - HUGE}
Steps == {-3, -2, -1, 1, 2, 3, NONE}

SortedInv == SortedBy(kf, s)

BisInv == LET ks == KSeq(kf, s) IN \A q \in Q2 :
  /\ BisL(kf, s, q) = BisLDef(kf, s, q) /\ BisR(kf, s, q) = BisRDef(kf, s, q)
  /\ IBisL(ks, q) = BisLDef(kf, s, q) /\ IBisR(ks, q) = BisRDef(kf, s, q)

FirstInv == \A x \in Elems :
  /\ FirstEq(kf, s, x) = FirstEqDef(s, x)
  /\ LET a == QAll(KSeq(kf, s), kf, s, x) IN
       /\ a[2] = CountEqDef(s, x) /\ a[1] = B2I(FirstEqDef(s, x) >= 0)
       /\ a[3] = BisLDef(kf, s, 2 * K(kf, x)) /\ a[4] = BisRDef(kf, s, 2 * K(kf, x))
       /\ QIn(KSeq(kf, s), kf, s, x) = a[1]

\* a stable insertion keeps what was there in order and puts x after its ties
InsInv == \A x \in Elems :
  LET u == Ins(kf, s, x)  p == BisRDef(kf, s, 2 * K(kf, x)) + 1 IN
  /\ SortedBy(kf, u) /\ u[p] = x /\ DelAt0(u, p - 1) = s
  /\ \A j \in p + 1 .. Len(u) : K(kf, u[j]) > K(kf, x)
  /\ StableSort(kf, s \o <<x>>) = u

SortInv == \A n \in 0 .. Len(s) :
  LET a == SubSeq(s, 1, n)  b == Reverse(SubSeq(s, n + 1, Len(s)))
  IN StableSort(kf, a \o b) = InsAllDef(kf, a, b)

Dedupe(q) == FoldLeft(LAMBDA acc, x : IF FirstEqDef(acc, x) >= 0 THEN acc ELSE Append(acc, x), <<>>, q)

DictInv ==      \* bulk insertion of items
  LET k == Dedupe(s)  u == [j \in 1 .. Len(k) |-> j] IN
  \A n \in 0 .. Len(k) :
     LET a == [s |-> SubSeq(k, 1, n), w |-> SubSeq(u, 1, n)]
         b == Reverse(SubSeq(k, n + 1, Len(k)))
     IN /\ DSetAll(kf, a, b, b) = DSetAllDef(kf, a, b, b)
        /\ DSetMany(kf, a, b, b) = DSetAllDef(kf, a, b, b)

\* slices, from the language definition: i, i+k, i+2k ... up to but not including j
SliceInv == \A a \in Ixs, b \in Ixs, c \in Steps :
  LET n  == Len(s)
      k  == IF c = NONE THEN 1 ELSE c
      cl(v) == IF k > 0 THEN Min2(Max2(v, 0), n) ELSE Min2(Max2(v, -1), n - 1)
      i  == IF a = NONE THEN (IF k > 0 THEN 0 ELSE n - 1) ELSE cl(IF a < 0 THEN a + n ELSE a)
      j  == IF b = NONE THEN (IF k > 0 THEN n ELSE -1) ELSE cl(IF b < 0 THEN b + n ELSE b)
      P  == {p \in 0 .. n - 1 : IF k > 0 THEN p >= i /\ p < j /\ (p - i) % k = 0
                                ELSE p <= i /\ p > j /\ (i - p) % (0 - k) = 0}
      r  == Slice(s, a, b, c)
      D  == DelPos(s, SlicePos(a, b, c, n))
  IN /\ Len(r) = Cardinality(P)
     /\ SlicePos(a, b, c, n) = P
     /\ \A h \in 1 .. Len(r) : LET p == i + (h - 1) * k IN p \in P /\ r[h] = s[p + 1]
     /\ Len(D) = n - Cardinality(P)
     /\ \A p \in (0 .. n - 1) \ P : D[p - Cardinality({q \in P : q < p}) + 1] = s[p + 1]

IdxInv == \A x \in Elems, a \in Ixs, b \in Ixs :
  LET n == Len(s)
      P == {p \in 0 .. n - 1 : /\ Rank(s[p + 1]) = Rank(x)
                               /\ (a = NONE \/ p >= IF a < 0 THEN a + n ELSE a)
                               /\ (b = NONE \/ p < IF b < 0 THEN b + n ELSE b)}
  IN QIdx(KSeq(kf, s), kf, s, x, a, b)
     = IF P = {} THEN VE ELSE CHOOSE p \in P : \A q \in P : p <= q

IrangeInv == \A m \in Q2 \union {NONE}, M \in Q2 \union {NONE}, im \in 0 .. 1, iM \in 0 .. 1 :
  LET P == {p \in 1 .. Len(s) : /\ (m = NONE \/ 2 * K(kf, s[p]) > m \/ (im = 1 /\ 2 * K(kf, s[p]) = m))
                                /\ (M = NONE \/ 2 * K(kf, s[p]) < M \/ (iM = 1 /\ 2 * K(kf, s[p]) = M))}
      r == QIrange(KSeq(kf, s), s, m, M, im, iM, 0)
  IN /\ Len(r) = Cardinality(P)
     /\ \A p \in P : r[p - Cardinality({q \in 1 .. p : q \notin P})] = s[p]
     /\ QIrange(KSeq(kf, s), s, m, M, im, iM, 1) = Reverse(r)

=============================================================================
