------------------------------- MODULE SetDict --------------------------------
(***************************************************************************)
(* The algorithms of SortedSet and SortedDict: a hash table and a sorted   *)
(* list of the same elements, kept in step by every method, statement by   *)
(* statement, including where a method stops when a comparison fails.      *)
(*                                                                         *)
(* An element 100 * rank + tag is hashable and equal to the others of its  *)
(* rank.  Ranks below 50 compare with each other, those from 50 on with    *)
(* each other only, and tag 9 with nothing at all (like 1 + 0j, equal to 1 *)
(* and without an order).  A comparison across raises.                     *)
(*                                                                         *)
(* The sorted list is represented by its contents: JenksMC justifies it.   *)
(* Every operator gives a record [m, l, ok]: the table (a set of elements, *)
(* or for dicts a sequence of <<key, value>> in insertion order), the list,*)
(* and whether the call returned.                                          *)
(***************************************************************************)
EXTENDS Ops

EqIn(S, x) == \E y \in S : Rank(y) = Rank(x)
DropEq(S, x) == {y \in S : Rank(y) # Rank(x)}

-----------------------------------------------------------------------------
(* The list: <<contents, ok>>.                                             *)

\* with one element there is one comparison; an element that compares with
\* nothing fails as soon as there is another
LAdd(kf, l, x) ==
  IF l = <<>> \/ (\E y \in Ran(l) : CanCmp(x, y)) THEN <<Ins(kf, l, x), TRUE>> ELSE <<l, FALSE>>
LSort(kf, xs) == IF AllCmp(Ran(xs)) \/ Len(xs) < 2 THEN <<StableSort(kf, xs), TRUE>> ELSE <<<<>>, FALSE>>
LRemove(kf, l, x) ==
  IF l # <<>> /\ \A y \in Ran(l) : CanCmp(x, y)
  THEN LET p == FirstEq(kf, l, x) IN IF p >= 0 THEN <<DelAt0(l, p), TRUE>> ELSE <<l, FALSE>>
  ELSE <<l, FALSE>>

R(m, l, ok) == [m |-> m, l |-> l, ok |-> ok]

-----------------------------------------------------------------------------
(* SortedSet; v a sequence of sequences (the iterables).                   *)

SAdd(kf, q, x) ==
  IF EqIn(q.m, x) THEN R(q.m, q.l, TRUE)
  ELSE LET a == LAdd(kf, q.l, x) IN
       IF a[2] THEN R(q.m \union {x}, a[1], TRUE) ELSE R(q.m, q.l, FALSE)      \* undone
SDiscard(kf, q, x) ==
  IF ~EqIn(q.m, x) THEN R(q.m, q.l, TRUE)
  ELSE LET a == LRemove(kf, q.l, x) IN
       IF a[2] THEN R(DropEq(q.m, x), a[1], TRUE) ELSE R(q.m, q.l, FALSE)
SRemove(kf, q, x) == IF EqIn(q.m, x) THEN SDiscard(kf, q, x) ELSE R(q.m, q.l, FALSE)
SPop(q, i) ==
  IF InRange(i, Len(q.l)) THEN R(DropEq(q.m, At(q.l, i)), DelAt0(q.l, NormIdx(i, Len(q.l))), TRUE)
  ELSE R(q.m, q.l, FALSE)

\* the representatives a set built from the sequence keeps: the first of each rank
Reps(xs) == {xs[j] : j \in {h \in 1 .. Len(xs) : \A g \in 1 .. h - 1 : Rank(xs[g]) # Rank(xs[h])}}
\* old | new keeps the old ones
Join(S, T) == S \union {x \in T : ~EqIn(S, x)}

\* one call after another until the first that fails
SEach(G(_, _), q, xs) == FoldLeft(LAMBDA acc, x : IF acc.ok THEN G(acc, x) ELSE acc, R(q.m, q.l, TRUE), xs)

Perms(S) == {p \in [1 .. Cardinality(S) -> S] : \A i, j \in DOMAIN p : i # j => p[i] # p[j]}
AnySorted(kf, S) == LET p == CHOOSE p \in Perms(S) : TRUE IN LSort(kf, p)

\* the possible outcomes: the order in which a set is iterated is not determined
SUpdate(kf, q, v, F) ==
  LET T == Reps(Flat(v)) IN
  IF F * Cardinality(T) > Cardinality(q.m) THEN
    LET J == Join(q.m, T)  a == AnySorted(kf, J) IN
    {IF a[2] THEN R(J, a[1], TRUE) ELSE R(q.m, q.l, FALSE)}
  ELSE {SEach(LAMBDA u, x : SAdd(kf, u, x), q, p) : p \in Perms(T)}

SDifference(kf, q, v, F) ==
  LET T == Reps(Flat(v)) IN
  IF F * Cardinality(T) > Cardinality(q.m) THEN
    LET D == {x \in q.m : ~EqIn(T, x)} IN {R(D, AnySorted(kf, D)[1], TRUE)}
  ELSE {SEach(LAMBDA u, x : SDiscard(kf, u, x), q, p) : p \in Perms(T)}

\* which of two equal objects an intersection keeps is not determined: the
\* operand's may come in, and have no order
SIntersect(kf, q, v) ==
  LET D == {x \in q.m : \A j \in 1 .. Len(v) : EqIn(Ran(v[j]), x)}
      All == q.m \union Ran(Flat(v))
      Pick == {f \in [D -> All] : \A x \in D : Rank(f[x]) = Rank(x)}
  IN {LET J == {f[x] : x \in D}  a == AnySorted(kf, J) IN
      IF a[2] THEN R(J, a[1], TRUE) ELSE R(q.m, q.l, FALSE) : f \in Pick}

SSymmetric(kf, q, v) ==
  LET T == Reps(v[1])
      D == {x \in q.m : ~EqIn(T, x)} \union {x \in T : ~EqIn(q.m, x)}
      a == AnySorted(kf, D)
  IN {IF a[2] THEN R(D, a[1], TRUE) ELSE R(q.m, q.l, FALSE)}

SDelSlice(q, a, b, c) ==
  LET P == SlicePos(a, b, c, Len(q.l))  gone == {q.l[p + 1] : p \in P} IN
  R(q.m \ gone, DelPos(q.l, P), TRUE)

-----------------------------------------------------------------------------
(* SortedDict.                                                             *)

DHas(m, x) == \E j \in 1 .. Len(m) : Rank(m[j][1]) = Rank(x)
DPut(m, x, y) ==        \* the first key object stays
  IF DHas(m, x) THEN [j \in 1 .. Len(m) |-> IF Rank(m[j][1]) = Rank(x) THEN <<m[j][1], y>> ELSE m[j]]
  ELSE Append(m, <<x, y>>)
DCut(m, x) == SelectSeq(m, LAMBDA p : Rank(p[1]) # Rank(x))
DVal(m, x) == m[CHOOSE j \in 1 .. Len(m) : Rank(m[j][1]) = Rank(x)][2]
DKeys(m) == [j \in 1 .. Len(m) |-> m[j][1]]
DPuts(m, ps) == FoldLeft(LAMBDA acc, p : DPut(acc, p[1], p[2]), m, ps)

DSetItem(kf, q, p) ==
  IF DHas(q.m, p[1]) THEN R(DPut(q.m, p[1], p[2]), q.l, TRUE)
  ELSE LET a == LAdd(kf, q.l, p[1]) IN
       IF a[2] THEN R(DPut(q.m, p[1], p[2]), a[1], TRUE) ELSE R(q.m, q.l, FALSE)
DDelItem(kf, q, x) ==
  IF ~DHas(q.m, x) THEN R(q.m, q.l, FALSE)
  ELSE LET a == LRemove(kf, q.l, x) IN
       IF a[2] THEN R(DCut(q.m, x), a[1], TRUE) ELSE R(q.m, q.l, FALSE)
DPopItem(q, i) ==
  IF ~InRange(i, Len(q.l)) THEN R(q.m, q.l, FALSE)
  ELSE R(DCut(q.m, At(q.l, i)), DelAt0(q.l, NormIdx(i, Len(q.l))), TRUE)
DSetDefault(kf, q, p) == IF DHas(q.m, p[1]) THEN R(q.m, q.l, TRUE) ELSE DSetItem(kf, q, p)

DUpdate(kf, q, ps, F) ==
  LET pairs == DPuts(<<>>, ps) IN
  IF q.m = <<>> THEN
    LET a == LSort(kf, DKeys(pairs)) IN
    IF a[2] THEN R(pairs, a[1], TRUE) ELSE R(q.m, q.l, FALSE)
  ELSE IF F * Len(pairs) > Len(q.m) THEN
    LET new == SelectSeq(DKeys(pairs), LAMBDA x : ~DHas(q.m, x))
        a == LSort(kf, DKeys(q.m) \o new)
    IN IF a[2] THEN R(DPuts(q.m, pairs), a[1], TRUE) ELSE R(q.m, q.l, FALSE)
  ELSE SEach(LAMBDA u, x : DSetItem(kf, u, x), q, pairs)

DDelSlice(q, a, b, c) ==
  LET P == SlicePos(a, b, c, Len(q.l))  gone == {q.l[p + 1] : p \in P} IN
  R(FoldLeft(LAMBDA acc, x : DCut(acc, x), q.m, SetToSeq(gone)), DelPos(q.l, P), TRUE)

=============================================================================
