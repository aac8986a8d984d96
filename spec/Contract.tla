------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* The abstract specification of sortedcontainers.                         *)
(*                                                                         *)
(* The state is a tuple of slots.  A slot is a container, abstracted to    *)
(*   t  "L" SortedList, "K" SortedKeyList, "S" SortedSet, "D" SortedDict,  *)
(*      "P" a plain Python collection, "-" nothing                         *)
(*   c  which class exactly (0 the stock class, others are subclasses)     *)
(*   k  its key function (0: none)                                         *)
(*   s  its elements (keys, for a dict) in iteration order                 *)
(*   w  its values, parallel to s (dicts only)                             *)
(* Every public operation is an operator giving, for a state and the       *)
(* arguments, the result it returns and the slots it changes.  An exception*)
(* is a result: <<IE>> etc.  A slot is changed to an expectation: a slot   *)
(* with a mode m saying how much of it is determined (see SlotOK).         *)
(***************************************************************************)
EXTENDS PySeq

IE == -901      \* IndexError
VE == -902      \* ValueError
KE == -903      \* KeyError
TE == -904      \* TypeError
NI == -906      \* NotImplementedError
IsErr(r) == Len(r) = 1 /\ r[1] <= -901 /\ r[1] >= -999

EmptySlot == [t |-> "-", c |-> 0, k |-> 0, s |-> <<>>, w |-> <<>>, n |-> 0]

B2I(b) == IF b THEN 1 ELSE 0
RSet(s) == {Rank(s[j]) : j \in 1 .. Len(s)}
WithLen(s) == <<Len(s)>> \o s
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x

-----------------------------------------------------------------------------
(* Expectations.  m: "x" exactly this sequence; "m" this multiset, in key  *)
(* order; "r" these ranks, each once, in key order; "d" these items (dict);*)
(* "q" these items up to the identity of equal keys.                       *)

MkS(c, k, s)    == [t |-> "S", c |-> c, k |-> k, s |-> s, w |-> <<>>, m |-> "r"]
MkL(t, c, k, s) == [t |-> t, c |-> c, k |-> k, s |-> s, w |-> <<>>, m |-> "x"]
Keep(sl, s)     == [t |-> sl.t, c |-> sl.c, k |-> sl.k, s |-> s, w |-> sl.w,
                    m |-> IF sl.t = "S" THEN "r" ELSE IF sl.t = "D" THEN "d" ELSE "x"]
KeepD(sl, dr)   == [t |-> sl.t, c |-> sl.c, k |-> sl.k, s |-> dr.s, w |-> dr.w, m |-> "d"]

WellFormed(o) ==
  /\ o.n = Len(o.s)
  /\ \A j \in 1 .. Len(o.s) : o.s[j] >= 0
  /\ o.t \in {"L", "K", "S", "D"} => SortedBy(o.k, o.s)
  /\ o.t = "D" => Len(o.w) = Len(o.s)
  /\ o.t \in {"S", "D"} => Cardinality(RSet(o.s)) = Len(o.s)

\* -1: not determined
KindOK(exp, o) == o.t = exp.t /\ (exp.c = -1 \/ o.c = exp.c) /\ (exp.k = -1 \/ o.k = exp.k)

Pairs(x)  == {<<x.s[j], x.w[j]>> : j \in 1 .. Len(x.s)}
\* dict values 300+j and 400+j equal the value j without being it
WR(y) == IF y >= 300 /\ y < 500 THEN y % 100 ELSE y
RWPairs(x) == {<<Rank(x.s[j]), WR(x.w[j])>> : j \in 1 .. Len(x.s)}
RPairs(x) == {<<Rank(x.s[j]), x.w[j]>> : j \in 1 .. Len(x.s)}
Mult(s)   == [x \in {s[j] : j \in 1 .. Len(s)} |-> Cardinality({j \in 1 .. Len(s) : s[j] = x})]
SameBag(s, u) == s = u \/ Mult(s) = Mult(u)

ContentOK(exp, o) ==
  IF exp.m = "x" THEN o.s = exp.s
  ELSE IF exp.m = "m" THEN Len(o.s) = Len(exp.s) /\ SameBag(o.s, exp.s)
  ELSE IF exp.m = "r" THEN RSet(o.s) = RSet(exp.s)
  ELSE IF exp.m = "d" THEN Len(o.w) = Len(o.s) /\ Len(o.s) = Len(exp.s) /\ Pairs(o) = Pairs(exp)
  ELSE Len(o.w) = Len(o.s) /\ Len(o.s) = Len(exp.s) /\ RPairs(o) = RPairs(exp)

-----------------------------------------------------------------------------
(* Queries of a sorted sequence (kf, s); each gives the encoded result.    *)

QGet(s, i) == IF InRange(i, Len(s)) THEN <<At(s, i)>> ELSE <<IE>>
QGets(s, a, b, c) == IF c = 0 THEN <<VE>> ELSE Slice(s, a, b, c)

\* ks is KSeq(kf, s).  Equal values have equal keys, so value equality is
\* decided among the elements with the same key.
BL(ks, kf, x) == IBisL(ks, 2 * K(kf, x))
BR(ks, kf, x) == IBisR(ks, 2 * K(kf, x))

QIn(ks, kf, s, x)  == B2I(FirstEqIn(s, x, BL(ks, kf, x), BR(ks, kf, x)) >= 0)

\* membership, count, bisect_left, bisect_right
QAll(ks, kf, s, x) ==
  LET q == 2 * K(kf, x)  lo == IBisL(ks, q)  hi == IBisR(ks, q)  c == CountEqIn(s, x, lo, hi)
  IN <<B2I(c > 0), c, lo, hi>>

QIdx(ks, kf, s, x, a, b) ==
  LET n  == Len(s)
      lo == IF a = NONE THEN 0 ELSE IF a < 0 THEN Max2(a + n, 0) ELSE a
      hi == IF b = NONE THEN n ELSE IF b < 0 THEN b + n ELSE Min2(b, n)
      l2 == Max2(lo, BL(ks, kf, x))
      h2 == Min2(hi, BR(ks, kf, x))
      p  == FirstEqIn(s, x, l2, h2)
  IN IF p < 0 THEN VE ELSE p

\* the positions between two doubled keys; m2/M2 = NONE: unbounded
QIrange(ks, s, m2, M2, im, iM, rv) ==
  LET lo == IF m2 = NONE THEN 0 ELSE IF im = 1 THEN IBisL(ks, m2) ELSE IBisR(ks, m2)
      hi == IF M2 = NONE THEN Len(s) ELSE IF iM = 1 THEN IBisR(ks, M2) ELSE IBisL(ks, M2)
      r  == IF lo < hi THEN SubSeq(s, lo + 1, hi) ELSE <<>>
  IN IF rv = 1 THEN Reverse(r) ELSE r

K2(kf, x) == IF x = NONE THEN NONE ELSE 2 * K(kf, x)

QIslice(s, a, b, rv) ==
  LET r == Slice(s, a, b, NONE) IN IF rv = 1 THEN Reverse(r) ELSE r

-----------------------------------------------------------------------------
(* Lexicographic comparison; op: 1 ==, 2 !=, 3 <, 4 <=, 5 >, 6 >=          *)

Lex(op, x, y) ==
  LET n == Min2(Len(x), Len(y))
      D == {j \in 1 .. n : Rank(x[j]) # Rank(y[j])}
      j == CHOOSE j \in D : \A j2 \in D : j <= j2
      c == IF D = {} THEN Len(x) - Len(y) ELSE Rank(x[j]) - Rank(y[j])
  IN CASE op = 1 -> c = 0 [] op = 2 -> c # 0 [] op = 3 -> c < 0
       [] op = 4 -> c <= 0 [] op = 5 -> c > 0 [] OTHER -> c >= 0

\* the same for elements whose ranks are ordered only within a residue class
ParCmp(op, p, q) ==
  CASE op = 1 -> p = q [] op = 2 -> p # q [] p % 3 # q % 3 -> FALSE
    [] op = 3 -> p < q [] op = 4 -> p <= q [] op = 5 -> p > q [] OTHER -> p >= q
LexPar(op, x, y) ==
  LET n == Min2(Len(x), Len(y))
      D == {j \in 1 .. n : Rank(x[j]) # Rank(y[j])}
      j == CHOOSE j \in D : \A j2 \in D : j <= j2
  IN IF D = {} THEN Lex(op, x, y) ELSE ParCmp(op, Rank(x[j]), Rank(y[j]))

SetCmp(op, X, Y) ==
  CASE op = 1 -> X = Y [] op = 2 -> X # Y [] op = 3 -> X \subseteq Y /\ X # Y
    [] op = 4 -> X \subseteq Y [] op = 5 -> Y \subseteq X /\ X # Y [] OTHER -> Y \subseteq X

-----------------------------------------------------------------------------
(* Dict operations on records with fields s and w.                         *)

DSet(kf, dr, x, y) ==
  LET p == FirstEq(kf, dr.s, x)
      q == BisR(kf, dr.s, 2 * K(kf, x))
  IN IF p >= 0 THEN [s |-> dr.s, w |-> [dr.w EXCEPT ![p + 1] = y]]
     ELSE [s |-> SubSeq(dr.s, 1, q) \o <<x>> \o SubSeq(dr.s, q + 1, Len(dr.s)),
           w |-> SubSeq(dr.w, 1, q) \o <<y>> \o SubSeq(dr.w, q + 1, Len(dr.w))]

DSetAllDef(kf, dr, xs, ys) ==
  FoldLeft(LAMBDA acc, j : DSet(kf, acc, xs[j], ys[j]), dr, [j \in 1 .. Len(xs) |-> j])

\* the same when all the keys differ: sort the keys, and the values with them
DSetMany(kf, dr, xs, ys) ==
  LET z == dr.s \o xs  u == dr.w \o ys  p == SortPerm(kf, z) IN
  [s |-> SubSeq([j \in 1 .. Len(z) |-> z[p[j]]], 1, Len(z)),
   w |-> SubSeq([j \in 1 .. Len(z) |-> u[p[j]]], 1, Len(z))]

DSetAll(kf, dr, xs, ys) ==
  IF Len(xs) <= 8 \/ Cardinality(RSet(dr.s \o xs)) # Len(dr.s) + Len(xs)
  THEN DSetAllDef(kf, dr, xs, ys) ELSE DSetMany(kf, dr, xs, ys)

DDel0(dr, p) == [s |-> DelAt0(dr.s, p), w |-> DelAt0(dr.w, p)]
DDelPos(dr, P) == [s |-> DelPos(dr.s, P), w |-> DelPos(dr.w, P)]
DR(sl) == [s |-> sl.s, w |-> sl.w]
Nil == [s |-> <<>>, w |-> <<>>]

-----------------------------------------------------------------------------
KeepRanks(s, X) == SelectSeq(s, LAMBDA y : Rank(y) \in X)
DropRanks(s, X) == SelectSeq(s, LAMBDA y : Rank(y) \notin X)

UnionR(ys) == UNION {RSet(ys[j]) : j \in 1 .. Len(ys)}
InterR(X, ys) == {x \in X : \A j \in 1 .. Len(ys) : x \in RSet(ys[j])}

=============================================================================
