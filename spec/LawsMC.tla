-------------------------------- MODULE LawsMC --------------------------------
(***************************************************************************)
(* The comparison and set operators of the specification against their     *)
(* definitions and laws, for every pair of small sequences and sets.       *)
(***************************************************************************)
EXTENDS Ops

CONSTANTS MaxRank, MaxLen, KFs

VARIABLES kf, x, y

E == {100 * p + t : p \in 0 .. MaxRank, t \in 0 .. 1}
Init == kf \in KFs /\ x = <<>> /\ y = <<>>
Next == /\ kf' = kf
        /\ \/ Len(x) < MaxLen /\ y' = y /\ \E e \in E : x' = Append(x, e)
           \/ Len(y) < MaxLen /\ x' = x /\ \E e \in E : y' = Append(y, e)
Spec == Init /\ [][Next]_<<kf, x, y>>

U == 0 .. MaxRank
\* the sets (and dicts) of these elements, and the lists of them
Dd(s) == FoldLeft(LAMBDA acc, e : IF FirstEqDef(acc, e) >= 0 THEN acc ELSE Append(acc, e), <<>>, s)
SetOf(s) == [t |-> "S", c |-> 0, k |-> kf, s |-> StableSort(kf, Dd(s)), w |-> <<>>, n |-> Len(Dd(s))]
ListOf(s) == [t |-> "L", c |-> 0, k |-> 0, s |-> StableSort(0, s), w |-> <<>>, n |-> Len(s)]
Ev(o, z) == [o |-> o, a |-> 1, b |-> 2, d |-> 3, i |-> <<>>, v |-> <<>>, w |-> <<>>, y |-> <<>>, z |-> z]

\* C12
Alg(o, A, B) == LET f == Eff(<<A, B>>, Ev(o, <<>>)) IN f.ch[1][2]
AlgebraOK ==
  LET A == SetOf(x)  B == SetOf(y)  X == RSet(x)  Y == RSet(y) IN
  /\ \A o \in {"uni", "int", "dif", "sym", "rdif"} :
       LET r == Alg(o, A, B) IN
       /\ r.k = A.k /\ r.c = A.c /\ r.t = "S"
       /\ \A p \in U : (p \in RSet(r.s)) <=>
            CASE o = "uni" -> p \in X \/ p \in Y [] o = "int" -> p \in X /\ p \in Y
              [] o = "dif" -> p \in X /\ p \notin Y [] o = "rdif" -> p \in Y /\ p \notin X
              [] OTHER -> (p \in X) # (p \in Y)
  /\ \A o \in {"uni", "int", "sym"} : RSet(Alg(o, A, B).s) = RSet(Alg(o, B, A).s)
  /\ RSet(Alg("dif", A, B).s) = RSet(Alg("rdif", B, A).s)
  /\ \A o \in {<<"upd", "uni">>, <<"difu", "dif">>, <<"intu", "int">>, <<"symu", "sym">>} :
       RSet(Eff(<<A, B>>, Ev(o[1], <<>>)).ch[1][2].s) = RSet(Alg(o[2], A, B).s)
SetCmpOK ==
  LET A == SetOf(x)  B == SetOf(y)  X == RSet(x)  Y == RSet(y)
      r(z) == Eff(<<A, B>>, Ev("scmp", z)).r[1] = 1
      q(z) == Eff(<<A, B>>, Ev("rel", <<z>>)).r[1] = 1
      sub == \A p \in U : p \in X => p \in Y
      sup == \A p \in U : p \in Y => p \in X
  IN /\ r(<<1, 0>>) = (sub /\ sup) /\ r(<<2, 0>>) = ~(sub /\ sup)
     /\ r(<<3, 0>>) = (sub /\ ~sup) /\ r(<<4, 0>>) = sub
     /\ r(<<5, 0>>) = (sup /\ ~sub) /\ r(<<6, 0>>) = sup
     /\ \A z \in 1 .. 6 : r(<<z, 1>>) = (Eff(<<B, A>>, Ev("scmp", <<z, 0>>)).r[1] = 1)
     /\ q(1) = (\A p \in U : ~(p \in X /\ p \in Y)) /\ q(2) = sub /\ q(3) = sup

\* C17: the first difference decides, and a proper prefix is less
LexOK ==
  LET A == ListOf(x)
      a == A.s  b == y       \* any sequence
      r(z) == Eff(<<A, [t |-> "P", c |-> 0, k |-> 0, s |-> b, w |-> <<>>, n |-> Len(b)]>>, Ev("cmp", z)).r[1] = 1
      m == Min2(Len(a), Len(b))
      D == {j \in 1 .. m : Rank(a[j]) # Rank(b[j])}
      f == CHOOSE j \in D : \A h \in D : j <= h
      less == IF D = {} THEN Len(a) < Len(b) ELSE Rank(a[f]) < Rank(b[f])
      same == D = {} /\ Len(a) = Len(b)
  IN /\ r(<<1, 0>>) = same /\ r(<<2, 0>>) = ~same
     /\ r(<<3, 0>>) = less /\ r(<<4, 0>>) = (less \/ same)
     /\ r(<<5, 0>>) = ~(less \/ same) /\ r(<<6, 0>>) = ~less
     /\ r(<<1, 1>>) = same /\ r(<<3, 1>>) = ~(less \/ same) /\ r(<<4, 1>>) = ~less
     /\ r(<<5, 1>>) = less /\ r(<<6, 1>>) = (less \/ same)

\* C10, C17: dicts
DictOf(s) == LET k == StableSort(kf, Dd(s)) IN
  [t |-> "D", c |-> 0, k |-> kf, s |-> k, w |-> [j \in 1 .. Len(k) |-> k[j] % 100], n |-> Len(k)]
ViewsOK ==
  LET A == DictOf(x)  B == DictOf(y)
      v(o, z) == Eff(<<A, B>>, Ev(o, z)).r
      P == {<<Rank(A.s[j]), A.w[j]>> : j \in 1 .. A.n}
      Q == {<<Rank(B.s[j]), B.w[j]>> : j \in 1 .. B.n}
  IN /\ v("dcmp", <<1, 0>>)[1] = B2I(P = Q) /\ v("dcmp", <<2, 0>>)[1] = B2I(P # Q)
     /\ v("vcmp", <<0, 1, 0>>)[1] = B2I(RSet(x) = RSet(y))
     /\ v("vcmp", <<1, 3, 0>>)[1] = B2I(P \subseteq Q /\ P # Q)
     /\ v("vdisj", <<1>>)[1] = B2I(P \intersect Q = {})
     /\ \A z \in 1 .. 4 : LET r == Tail(v("vset", <<0, z, 0>>)) IN
          /\ \A j \in 1 .. Len(r) - 1 : r[j] < r[j + 1]
          /\ {r[j] : j \in 1 .. Len(r)} =
               CASE z = 1 -> RSet(x) \union RSet(y) [] z = 2 -> RSet(x) \intersect RSet(y)
                 [] z = 3 -> RSet(x) \ RSet(y) [] OTHER -> (RSet(x) \ RSet(y)) \union (RSet(y) \ RSet(x))
     /\ LET r == Eff(<<A, B>>, Ev("or", <<0>>)).ch[1][2]     \* A | B: the values of B win
        IN /\ RSet(r.s) = RSet(x) \union RSet(y)
           /\ \A j \in 1 .. Len(r.s) :
                IF \E q \in Q : q[1] = Rank(r.s[j]) THEN <<Rank(r.s[j]), r.w[j]>> \in Q
                ELSE <<Rank(r.s[j]), r.w[j]>> \in P
=============================================================================
