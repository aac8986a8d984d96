------------------------------- MODULE LayoutMC -------------------------------
(***************************************************************************)
(* One step of the algorithm from layouts with up to MaxRuns runs: a pair  *)
(* of neighbouring runs has any of the lengths Lens, the others are of the *)
(* load length, and the positional index is either absent or built.  Every *)
(* insertion and removal at the borders of the pair is taken, deletions of *)
(* slices across them, and additions in bulk on either side of the number  *)
(* that makes the list be loaded anew; the step must keep the storage      *)
(* invariants, refine the contract and answer every position.  Each step   *)
(* is printed with its effect: the harness brings the real containers into *)
(* these layouts and takes the same steps (edges.txt).                     *)
(***************************************************************************)
EXTENDS Jenks

CONSTANTS MaxRuns, Lens, Load, Kf, Keyed

VARIABLES r, s, st      \* st: "init" or the step taken

\* the i-th value (1-based) of the j-th run (1-based), in ascending key order
Val(j, i) == 100 * (80 * j + 8 * i)
Runs(lens) == [j \in 1 .. Len(lens) |-> [i \in 1 .. lens[j] |-> Val(j, i)]]

Make(lens) ==
  LET ls == Runs(lens) IN
  [Fresh(Load, Kf, Keyed) EXCEPT
     !.ls = ls,
     !.ks = IF Keyed THEN [j \in 1 .. Len(ls) |-> KSeq(Kf, ls[j])] ELSE <<>>,
     !.mx = [j \in 1 .. Len(ls) |-> LET x == ls[j][Len(ls[j])] IN IF Keyed THEN 2 * K(Kf, x) ELSE x],
     !.len = Len(Flat(ls))]

Lay(n, j, a, b) == [i \in 1 .. n |-> IF i = j THEN a ELSE IF i = j + 1 THEN b ELSE Load]

Init ==
  \E n \in 1 .. MaxRuns, j \in 1 .. MaxRuns, a, b \in Lens \union {1, 2}, ix \in BOOLEAN :
    /\ j <= n
    /\ (j = n => b = Load)                 \* no second run
    /\ (a < 3 => j = n) /\ (b < 3 => j + 1 = n)     \* only the last run may be short
    /\ LET m == Make(Lay(n, j, a, b)) IN
         /\ (ix => n > 1)
         /\ r = IF ix THEN BuildIndex(m) ELSE m
         /\ s = Flat(m.ls)
    /\ st = <<"init", n, j>>

Lns(q) == [j \in 1 .. NRuns(q) |-> Len(q.ls[j])]
Eff(q, t) == <<NRuns(t) - NRuns(q), IF t.ix = <<>> THEN 0 ELSE 1>>
Say(op, j, w, t) ==
  /\ PrintT("EDGE " \o op \o " " \o ToString(<<j, w, IF r.ix = <<>> THEN 0 ELSE 1>> \o Eff(r, t)) \o " " \o ToString(Lns(r)))
  /\ st' = <<op, j, w>>

FirstOf(j) == r.ls[j][1]
LastOf(j) == r.ls[j][Len(r.ls[j])]
AddA == \E j \in {st[3], st[3] + 1}, w \in 0 .. 1 :
  /\ j <= NRuns(r)
  /\ LET x == IF w = 0 THEN FirstOf(j) - 300 ELSE LastOf(j) - 300  t == Add(r, x) IN
       /\ Len(r.ls[j]) > 1 \/ w = 0
       /\ r' = t /\ s' = Ins(Kf, s, x) /\ Say("add", j, w, t)
EndA == LET x == LastOf(NRuns(r)) + 300  t == Add(r, x) IN
  /\ st[3] >= NRuns(r) - 1
  /\ r' = t /\ s' = Ins(Kf, s, x) /\ Say("add", NRuns(r), 2, t)
DelA == \E j \in {st[3], st[3] + 1}, w \in {0, 2} :
  /\ j <= NRuns(r)
  /\ LET x == IF w = 0 THEN FirstOf(j) ELSE LastOf(j)  t == Discard(r, x) IN
       /\ r' = t /\ s' = DelAt0(s, FirstEq(Kf, s, x)) /\ Say("del", j, w, t)

\* deletion of slices from the borders of the pair; w: where and how many
Before(j) == IF j = 1 THEN 0 ELSE Len(Flat(SubSeq(r.ls, 1, j - 1)))
SliceOf(j, w) ==        \* <<start, stop, step>>
  LET b == Before(j)  l == Len(r.ls[j]) IN
  CASE w = 0 -> <<b, b + 2, 1>>
    [] w = 1 -> <<b + l - 1, b + l + 1, 1>>
    [] w = 2 -> <<b, b + l, 1>>
    [] w = 3 -> <<b, b + l + 1, 1>>
    [] w = 4 -> <<b + 1, b + l - 1, 1>>
    [] w = 5 -> <<b, b + 5, 2>>
CutA == \E j \in {st[3], st[3] + 1}, w \in 0 .. 5 :
  /\ j <= NRuns(r)
  /\ LET c == SliceOf(j, w)  t == DelSlice(r, c[1], c[2], c[3])  p == SlicePos(c[1], c[2], c[3], Len(s)) IN
       /\ p # {}
       /\ r' = t /\ s' = DelPos(s, p) /\ Say("cut", j, w, t)

\* addition in bulk from the place on; w: 0 and 2 as many as are still added one
\* by one (0: spread, 2: between two neighbours), 1 and 3 the first number that
\* makes the list be loaded anew
Many(w) == LET n == Len(s) IN IF w \in {0, 2} THEN (n - 1) \div 4 ELSE (n + 3) \div 4
News(j, w) ==
  LET n == Len(s)  b == Before(j) IN
  [i \in 1 .. Many(w) |-> IF w < 2 THEN s[1 + ((b + i - 1) % n)] - 300 ELSE s[b + 1] - 100 * (1 + ((i - 1) % 7))]
UpdA == \E j \in {st[3], st[3] + 1}, w \in 0 .. 3 :
  /\ j <= NRuns(r) /\ Many(w) > 0
  /\ LET xs == News(j, w)  t == Update(r, xs) IN
       /\ r' = t /\ s' = InsAllDef(Kf, s, xs) /\ Say("upd", j, w, t)

Next == st[1] = "init" /\ (AddA \/ EndA \/ DelA \/ CutA \/ UpdA)
Spec == Init /\ [][Next]_<<r, s, st>>

Refines == Flat(r.ls) = s
StorageOK == JStorageFail(r, s) = ""
PlacesOK ==
  LET n == Len(s)  q == IF n = 0 THEN r ELSE Indexed(r) IN
  \A i \in 0 .. n - 1 : LET p == Pos(q, i) IN Get(Get(q.ls, p[1]), p[2]) = Get(s, i) /\ Loc(q, p[1], p[2]) = i
=============================================================================
