------------------------------- MODULE JenksMC -------------------------------
(***************************************************************************)
(* Every operation of the algorithm, in every reachable small state, keeps *)
(* the storage invariants and refines the contract: the runs laid end to   *)
(* end are the contract's sequence, and every query computed on the runs   *)
(* gives what the contract says.                                           *)
(***************************************************************************)
EXTENDS Jenks

CONSTANTS Load, Kf, Keyed, Ranks0, Tags, MaxLen, Bulk, Steps, Lo

VARIABLES r, s

StepsQ == {-2, 1}
StepsBig == {-2, -1, 1, 2}
LoBig == -2

Elems == {100 * p + t : p \in Ranks0, t \in Tags}
Seqs(m) == UNION {[1 .. j -> Elems] : j \in 0 .. m}

Init == r = Fresh(Load, Kf, Keyed) /\ s = <<>>

n == Len(s)
AddA == n < MaxLen /\ \E x \in Elems : r' = Add(r, x) /\ s' = Ins(Kf, s, x)
DisA == \E p \in Ranks0 : LET x == 100 * p + 98  f == FirstEq(Kf, s, x) IN
          /\ f >= 0
          /\ r' = Discard(r, x)
          /\ s' = DelAt0(s, f)
DelA == \E i \in (0 - n) .. n - 1 : r' = DelPos1(r, i) /\ s' = DelAt0(s, NormIdx(i, n))
PopA == \E i \in (0 - n) .. n - 1 : r' = PopAt(r, i) /\ s' = DelAt0(s, NormIdx(i, n))
DelsA == \E a, b \in {NONE} \union Lo .. n, c \in Steps :
          /\ SlicePos(a, b, c, n) # {}
          /\ r' = DelSlice(r, a, b, c)
          /\ s' = DelPos(s, SlicePos(a, b, c, n))
UpdA == \E xs \in Seqs(Bulk) :
          /\ n + Len(xs) <= MaxLen
          /\ r' = Update(r, xs)
          /\ s' = InsAllDef(Kf, s, xs)
ClrA == r' = Clear(r) /\ s' = <<>>
RstA == r' = Reset(r, Load) /\ s' = s
MulA == \E k \in {0, 1, 2} : n * k <= MaxLen /\ r' = IMul(r, k) /\ s' = InsAllDef(Kf, <<>>, Rep(s, k))
IxA  == NRuns(r) > 1 /\ r' = Indexed(r) /\ s' = s

Next == AddA \/ DisA \/ DelA \/ PopA \/ DelsA \/ UpdA \/ ClrA \/ RstA \/ MulA \/ IxA

Refines == Flat(r.ls) = s /\ SortedBy(Kf, s)
StorageOK ==
  /\ JStorageFail(r, s) = ""
  /\ \A j \in 1 .. NRuns(r) : Len(r.ls[j]) \in 1 .. 2 * Load
  /\ \A j \in 1 .. NRuns(r) - 1 : Len(r.ls[j]) >= Half(Load)

\* C02
PositionsOK ==
  /\ \A i \in (0 - n - 2) .. n + 1 : GetItem(r, i) = QGet(s, i)[1]
  /\ \A a, b \in {NONE} \union (0 - n - 1) .. n + 1, c \in {NONE, -2, -1, 1, 2} :
       GetSlice(r, a, b, c) = QGets(s, a, b, c)
\* C05
IslicesOK ==
  \A a, b \in {NONE} \union (0 - n - 1) .. n + 1, rv \in {0, 1} : Islice(r, a, b, rv) = QIslice(s, a, b, rv)
Keys2 == LET B == {2 * KR(Kf, p) : p \in Ranks0} IN {NONE} \union UNION {{k - 1, k, k + 1} : k \in B}
RangesOK ==
  \A m, M \in Keys2, im, iM, rv \in {0, 1} :
    IrangeKey(r, m, M, im, iM, rv) = QIrange(KSeq(Kf, s), s, m, M, im, iM, rv)
\* C04, C07
ValuesOK ==
  LET ks == KSeq(Kf, s) IN
  \A p \in Ranks0 \union {CHOOSE q \in 0 .. 50 : q \notin Ranks0} :
    LET x == 100 * p  all == QAll(ks, Kf, s, x) IN
    /\ B2I(Find(r, x) # <<>>) = all[1]
    /\ CountOf(r, x) = all[2]
    /\ BisectL(r, 2 * K(Kf, x)) = all[3]
    /\ BisectR(r, 2 * K(Kf, x)) = all[4]
    /\ \A a, b \in {NONE} \union (0 - n - 1) .. n + 1 : IndexOf(r, x, a, b) = QIdx(ks, Kf, s, x, a, b)
PlacesOK ==
  /\ \A i \in 0 .. n - 1 : LET p == Pos(r, i) IN Loc(r, p[1], p[2]) = i
  /\ \A q \in Keys2 \ {NONE} : LET ks == KSeq(Kf, s) IN BisectL(r, q) = IBisL(ks, q) /\ BisectR(r, q) = IBisR(ks, q)

Spec == Init /\ [][Next]_<<r, s>>
=============================================================================
