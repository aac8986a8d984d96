------------------------------ MODULE SetDictMC -------------------------------
(***************************************************************************)
(* Every method of the set and dict algorithms, in every reachable small   *)
(* state and with every small argument: the table and the list agree; a    *)
(* call that returns does what Ops says; one that raises keeps to the rules*)
(* of C15 and was given something that justifies it.                       *)
(***************************************************************************)
EXTENDS SetDict, TLC

CONSTANTS Kind, Kf, Ranks0, Tags, MaxLen, MaxArg, F, Emit

VARIABLE q

E0 == {100 * p + t : p \in Ranks0, t \in Tags}
Arg(m) == UNION {[1 .. j -> E0] : j \in 0 .. m}
Vals == {1, 2}
None2 == [o |-> "", a |-> 1, b |-> 0, d |-> 0, i |-> <<>>, v |-> <<>>, w |-> <<>>, y |-> <<>>, z |-> <<>>, f |-> 1]
Ev(o) == [None2 EXCEPT !.o = o]

Slot(p) ==
  IF Kind = "S" THEN [t |-> "S", c |-> 0, k |-> Kf, s |-> p.l, w |-> <<>>, n |-> Cardinality(p.m)]
  ELSE [t |-> "D", c |-> 0, k |-> Kf, s |-> p.l, n |-> Len(p.m),
        w |-> [j \in 1 .. Len(p.l) |-> IF DHas(p.m, p.l[j]) THEN DVal(p.m, p.l[j]) ELSE -996]]

Init == q = R(IF Kind = "S" THEN {} ELSE <<>>, <<>>, TRUE)

-----------------------------------------------------------------------------
(* What every step must satisfy: e the call, o the abstract state before,  *)
(* p the outcome.                                                          *)

Refines(e, o, p) ==      \* C09, C11, C21
  p.ok =>
    LET eff == Eff(<<o>>, e)  t == Slot(p) IN
    IF IsErr(eff.r) THEN FALSE
    ELSE IF eff.ch = <<>> THEN t = o
    ELSE KindOK(eff.ch[1][2], t) /\ ContentOK(eff.ch[1][2], t)
Faults(e, o, p) ==       \* C15
  ~p.ok => ~FaultFail(e, o, Slot(p))
Justified(e, o, p) ==    \* an error has a reason
  ~p.ok => IsErr(Eff(<<o>>, e).r) \/ HasReason(e, o)

\* Emit: the steps, for harness/steps.py to take with the real code
Values == IF Kind = "S" THEN <<>> ELSE [j \in 1 .. Len(q.l) |-> DVal(q.m, q.l[j])]

Do(e, p) ==
  /\ LET o == Slot(q) IN
       /\ Assert(Refines(e, o, p), <<"does not refine", e, o, p>>)
       /\ Assert(Faults(e, o, p), <<"fault", e, o, p>>)
       /\ Assert(Justified(e, o, p), <<"unjustified", e, o, p>>)
  /\ Emit => PrintT("STEP " \o ToString(<<e.o, e.f, q.l, Values, e.i, e.v, e.w, e.y, p.ok>>))
  /\ q' = [p EXCEPT !.ok = TRUE]

n == Len(q.l)

SNext ==
  \/ \E x \in E0 :
       \/ Do([Ev("add") EXCEPT !.v = <<x>>], SAdd(Kf, q, x))
       \/ Do([Ev("dis") EXCEPT !.v = <<x>>], SDiscard(Kf, q, x))
       \/ Do([Ev("rem") EXCEPT !.v = <<x>>], SRemove(Kf, q, x))
  \/ \E i \in {-1 - n, 0 - n, -1, 0, 1, n} : Do([Ev("pop") EXCEPT !.i = <<i>>], SPop(q, i))
  \/ \E a \in {NONE, 0, 1, -2}, b \in {NONE, 1, -1}, c \in {NONE, 2, -1} :
       Do([Ev("dels") EXCEPT !.i = <<a, b, c>>], SDelSlice(q, a, b, c))
  \/ \E v \in {<<x>> : x \in Arg(MaxArg)} \union {<<x, y>> : x, y \in Arg(1)} \union {<<>>} :
       \/ \E p \in SUpdate(Kf, q, v, F) : Do([Ev("upd") EXCEPT !.y = v, !.v = Flat(v), !.f = 2], p)
       \/ \E p \in SDifference(Kf, q, v, F) : Do([Ev("difu") EXCEPT !.y = v, !.v = Flat(v), !.f = 3], p)
       \/ \E p \in SIntersect(Kf, q, v) : Do([Ev("intu") EXCEPT !.y = v, !.v = Flat(v), !.f = 3], p)
       \/ Len(v) = 1 /\ \E p \in SSymmetric(Kf, q, v) :
            Do([Ev("symu") EXCEPT !.y = v, !.v = Flat(v), !.f = 2], p)

DNext ==
  \/ \E x \in E0, u \in Vals :
       \/ Do([Ev("set") EXCEPT !.v = <<x>>, !.w = <<u>>], DSetItem(Kf, q, <<x, u>>))
       \/ Do([Ev("setd") EXCEPT !.v = <<x>>, !.w = <<u>>], DSetDefault(Kf, q, <<x, u>>))
  \/ \E x \in E0 : Do([Ev("deld") EXCEPT !.v = <<x>>], DDelItem(Kf, q, x))
  \/ \E i \in {-1 - n, 0 - n, -1, 0, 1, n} : Do([Ev("popi") EXCEPT !.i = <<i>>], DPopItem(q, i))
  \/ \E a \in {NONE, 0, 1, -2}, b \in {NONE, 1, -1}, c \in {NONE, 2, -1} :
       Do([Ev("vdels") EXCEPT !.i = <<a, b, c>>, !.z = <<0>>], DDelSlice(q, a, b, c))
  \/ \E xs \in Arg(MaxArg) : \E us \in {[j \in 1 .. Len(xs) |-> 1 + (j % 2)], [j \in 1 .. Len(xs) |-> 2 - (j % 2)]} :
       Do([Ev("upd") EXCEPT !.v = xs, !.w = us, !.f = 2],
          DUpdate(Kf, q, [j \in 1 .. Len(xs) |-> <<xs[j], us[j]>>], F))

Next == (IF Kind = "S" THEN SNext ELSE DNext) /\ Len(q'.l) <= MaxLen
Spec == Init /\ [][Next]_q

Agree ==        \* the table and the list hold the same elements
  IF Kind = "S" THEN Ran(q.l) = q.m /\ Len(q.l) = Cardinality(q.m)
  ELSE Ran(q.l) = Ran(DKeys(q.m)) /\ Len(q.l) = Len(q.m)
Valid == WellFormed(Slot(q))
=============================================================================
