-------------------------------- MODULE Ops ---------------------------------
(***************************************************************************)
(* One operator per public operation: Eff(st, e) is what the operation e   *)
(* must do in state st, as a record                                        *)
(*   r   the result (RAny: not determined)                                 *)
(*   ch  the slots it changes: a sequence of <<slot, expectation>>         *)
(*   p   labels of the properties a wrong result breaks                    *)
(*   q   labels of the properties a wrong post-state breaks                *)
(* An event e has the fields                                               *)
(*   o operation   a receiver slot   b operand slot (0: none)   d new slot *)
(*   i integer arguments   v values   w dict values   y lists of integers  *)
(*   z flags.                                                              *)
(* Batched queries (names ending in A) are sequences of single calls.      *)
(***************************************************************************)
EXTENDS Contract

RAny == <<-1000>>
Res(r, p)         == [r |-> r, ch |-> <<>>, p |-> p, q |-> p]
Mut(r, a, x, q)   == [r |-> r, ch |-> <<<<a, x>>>>, p |-> q, q |-> q]
MutP(r, a, x, p, q) == [r |-> r, ch |-> <<<<a, x>>>>, p |-> p, q |-> q]
Unknown           == [r |-> <<-2000>>, ch |-> <<>>, p |-> {"HARNESS"}, q |-> {"HARNESS"}]

XS(st, e) == IF e.b = 0 THEN e.v ELSE st[e.b].s
XW(st, e) == IF e.b = 0 THEN e.w ELSE st[e.b].w
YS(st, e) == IF e.b = 0 THEN e.y ELSE Append(e.y, st[e.b].s)

TName(x) == CASE x = 1 -> "L" [] x = 2 -> "K" [] x = 3 -> "S" [] x = 4 -> "D" [] OTHER -> "P"

Broad(t) == CASE t = "L" -> {"C01"} [] t = "K" -> {"C06"} [] t = "S" -> {"C11"}
              [] t = "D" -> {"C09"} [] OTHER -> {"C16"}

-----------------------------------------------------------------------------
(* Construction, copying.                                                  *)

EInit(st, e) ==
  LET t == TName(e.z[1])  c == e.z[2]  k == e.z[3]  xs == XS(st, e)
  IN IF t = "P" THEN Mut(<<>>, e.d, [t |-> "P", c |-> c, k |-> 0, s |-> e.v, w |-> e.w, m |-> "x"], {"C16"})
     ELSE IF t = "S" THEN Mut(<<>>, e.d, MkS(c, k, xs), {"C21", "C11"})
     ELSE IF t = "D" THEN
       Mut(<<>>, e.d, KeepD([t |-> "D", c |-> c, k |-> k], DSetAll(k, Nil, xs, XW(st, e))),
           {"C21", "C09"})
     ELSE Mut(<<>>, e.d, MkL(t, c, k, InsAll(k, <<>>, xs)), {"C21"} \union Broad(t))

\* r: of a shallow copy (z < 2), how many of its objects are not those of the
\* original; of a deep one, how many that can be changed are.
ECopy(st, e) ==
  LET sl == st[e.a] IN Mut(<<0>>, e.d, Keep(sl, sl.s), {"C14"})

EFromKeys(st, e) ==
  Mut(<<>>, e.d, KeepD([t |-> "D", c |-> e.z[1], k |-> 0],
        DSetAll(0, Nil, e.v, [j \in 1 .. Len(e.v) |-> e.w[1]])), {"C21", "C09"})

-----------------------------------------------------------------------------
(* Queries common to lists and sets (and the sequence interface of dicts). *)

QueryOps == {"getA", "getsA", "qA", "idxA", "irA", "kqA", "kirA", "islA", "iter", "rev", "len"}

EQuery(st, e) ==
  LET sl == st[e.a]  s == sl.s  kf == sl.k  n == Len(s)  t == sl.t  o == e.o
      ks == KSeq(kf, s)
      pos == IF t = "S" \/ t = "D" THEN {"C13"} ELSE {"C02"}
      val == IF t = "S" \/ t = "D" THEN {"C13"} ELSE IF t = "K" THEN {"C07"} ELSE {"C04"}
      rng == IF t = "S" \/ t = "D" THEN {"C13"} ELSE IF t = "K" THEN {"C05", "C07"} ELSE {"C05"}
      seq == IF t = "S" \/ t = "D" THEN {"C13"} ELSE {"C05"}
  IN
  CASE o = "getA" ->
         Res([j \in 1 .. e.i[2] - e.i[1] + 1 |-> QGet(s, e.i[1] + j - 1)[1]], pos)
    [] o = "getsA" ->
         Res(Flat([j \in 1 .. Len(e.y) |->
               LET y == e.y[j] IN WithLen(QGets(s, y[1], y[2], y[3]))]), pos)
    [] o = "qA" ->
         IF t = "D" \/ t = "S"
         THEN Res(Flat([j \in 1 .. Len(e.v) |-> <<BL(ks, kf, e.v[j]), BR(ks, kf, e.v[j])>>]), val)
         ELSE Res(Flat([j \in 1 .. Len(e.v) |-> QAll(ks, kf, s, e.v[j])]), val)
    [] o = "idxA" ->
         Res(Flat([j \in 1 .. Len(e.v) |->
               [h \in 1 .. Len(e.y) |-> QIdx(ks, kf, s, e.v[j], e.y[h][1], e.y[h][2])]]), val)
    [] o = "irA" ->
         Res(Flat([j \in 1 .. Len(e.y) |->
               LET y == e.y[j]
               IN WithLen(QIrange(ks, s, K2(kf, y[1]), K2(kf, y[2]), y[3], y[4], y[5]))]), rng)
    [] o = "kqA" ->
         Res(Flat([j \in 1 .. Len(e.i) |-> <<IBisL(ks, e.i[j]), IBisR(ks, e.i[j])>>]), val)
    [] o = "kirA" ->
         Res(Flat([j \in 1 .. Len(e.y) |->
               LET y == e.y[j]
               IN WithLen(QIrange(ks, s, y[1], y[2], y[3], y[4], y[5]))]), rng)
    [] o = "islA" ->
         Res(Flat([j \in 1 .. Len(e.y) |->
               LET y == e.y[j] IN WithLen(QIslice(s, y[1], y[2], y[3]))]), seq)
    [] o = "iter" -> Res(s, IF t \in {"S", "D"} THEN Broad(t) ELSE {"C05"})
    [] o = "rev"  -> Res(Reverse(s), seq)
    [] OTHER      -> Res(<<n, B2I(n > 0)>>, Broad(t))

-----------------------------------------------------------------------------
(* Sorted lists.                                                           *)

EList(st, e) ==
  LET a == e.a  sl == st[a]  s == sl.s  kf == sl.k  n == Len(s)  o == e.o
      B == Broad(sl.t)
      posq == IF sl.t = "L" THEN {"C03"} ELSE {"C03", "C06"}
      x == e.v[1]
      i == IF Len(e.i) = 0 THEN -1 ELSE e.i[1]
  IN
  CASE o = "add" -> Mut(<<>>, a, Keep(sl, Ins(kf, s, x)), B)
    [] o = "upd" \/ o = "iadd" -> Mut(<<>>, a, Keep(sl, InsAll(kf, s, XS(st, e))), B \union {"C21"})
    [] o = "imul" -> Mut(<<>>, a, Keep(sl, InsAll(kf, <<>>, Rep(s, i))), B \union {"C21"})
    [] o = "rem" -> LET p == FirstEq(kf, s, x) IN
         IF p < 0 THEN Res(<<VE>>, B) ELSE Mut(<<>>, a, Keep(sl, DelAt0(s, p)), B)
    [] o = "dis" -> LET p == FirstEq(kf, s, x) IN
         IF p < 0 THEN Res(<<>>, B) ELSE Mut(<<>>, a, Keep(sl, DelAt0(s, p)), B)
    [] o = "pop" ->
         IF InRange(i, n) THEN Mut(<<At(s, i)>>, a, Keep(sl, DelAt0(s, NormIdx(i, n))), posq)
         ELSE Res(<<IE>>, posq)
    [] o = "del" ->
         IF InRange(i, n) THEN Mut(<<>>, a, Keep(sl, DelAt0(s, NormIdx(i, n))), posq)
         ELSE Res(<<IE>>, posq)
    [] o = "dels" ->
         IF e.i[3] = 0 THEN Res(<<VE>>, posq)
         ELSE Mut(<<>>, a, Keep(sl, DelPos(s, SlicePos(e.i[1], e.i[2], e.i[3], n))), posq \union {"C21"})
    [] o = "clr" -> Mut(<<>>, a, Keep(sl, <<>>), B \union {"C21"})
    [] o = "rst" -> MutP(<<>>, a, Keep(sl, s), B \union {"C08"}, B \union {"C08"})
    [] o = "plus" ->
         IF e.z[1] = 0
         THEN Mut(<<>>, e.d, MkL(sl.t, sl.c, kf, InsAll(kf, s, XS(st, e))), {"C21"})
         ELSE Mut(<<>>, e.d, [MkL(sl.t, sl.c, kf, InsAll(kf, XS(st, e), s)) EXCEPT !.m = "m"], {"C21"})
    [] o = "mul" -> Mut(<<>>, e.d, MkL(sl.t, sl.c, kf, InsAll(kf, <<>>, Rep(s, i))), {"C21"})
    [] o = "cmp" ->
         LET y == XS(st, e)
             x1 == IF e.z[2] = 0 THEN s ELSE y
             y1 == IF e.z[2] = 0 THEN y ELSE s
         IN Res(<<B2I(IF Len(e.z) = 3 /\ e.z[3] = 1 THEN LexPar(e.z[1], x1, y1) ELSE Lex(e.z[1], x1, y1))>>,
                {"C17"})
    [] o = "refuse" -> Res(<<NI>>, {"C20"})
    [] OTHER -> Unknown

-----------------------------------------------------------------------------
(* Sorted sets.                                                            *)

ESet(st, e) ==
  LET a == e.a  sl == st[a]  s == sl.s  kf == sl.k  n == Len(s)  o == e.o
      B == {"C11"}
      BB == {"C11", "C21"}
      ks == KSeq(kf, s)
      x == e.v[1]
      i == IF Len(e.i) = 0 THEN -1 ELSE e.i[1]
      X == RSet(s)
      ys == YS(st, e)
      New(cont) == MkS(sl.c, kf, cont)
  IN
  CASE o = "add" -> Mut(<<>>, a, Keep(sl, IF FirstEq(kf, s, x) >= 0 THEN s ELSE Ins(kf, s, x)), B)
    [] o = "dis" -> Mut(<<>>, a, Keep(sl, DropRanks(s, {Rank(x)})), B)
    [] o = "rem" ->
         IF FirstEq(kf, s, x) < 0 THEN Res(<<KE>>, B)
         ELSE Mut(<<>>, a, Keep(sl, DropRanks(s, {Rank(x)})), B)
    [] o = "pop" ->
         IF InRange(i, n) THEN Mut(<<At(s, i)>>, a, Keep(sl, DelAt0(s, NormIdx(i, n))), B)
         ELSE Res(<<IE>>, B)
    [] o = "del" ->
         IF InRange(i, n) THEN Mut(<<>>, a, Keep(sl, DelAt0(s, NormIdx(i, n))), B)
         ELSE Res(<<IE>>, B)
    [] o = "dels" ->
         IF e.i[3] = 0 THEN Res(<<VE>>, B)
         ELSE Mut(<<>>, a, Keep(sl, DelPos(s, SlicePos(e.i[1], e.i[2], e.i[3], n))), BB)
    [] o = "clr" -> Mut(<<>>, a, Keep(sl, <<>>), BB)
    [] o = "rst" -> Mut(<<>>, a, Keep(sl, s), {"C08", "C11"})
    [] o = "upd"  -> Mut(RAny, a, Keep(sl, s \o Flat(ys)), BB)
    [] o = "difu" -> Mut(RAny, a, Keep(sl, DropRanks(s, UnionR(ys))), BB)
    [] o = "intu" -> Mut(RAny, a, Keep(sl, KeepRanks(s, InterR(X, ys))), B)
    [] o = "symu" -> Mut(RAny, a, Keep(sl, DropRanks(s, RSet(ys[1])) \o DropRanks(ys[1], X)), B)
    [] o = "uni" -> Mut(<<>>, e.d, New(s \o Flat(ys)), {"C12", "C21"})
    [] o = "int" -> Mut(<<>>, e.d, New(KeepRanks(s, InterR(X, ys))), {"C12"})
    [] o = "dif" -> Mut(<<>>, e.d, New(DropRanks(s, UnionR(ys))), {"C12"})
    [] o = "rdif" -> Mut(<<>>, e.d, New(DropRanks(ys[1], X)), {"C12"})
    [] o = "sym" -> Mut(<<>>, e.d, New(DropRanks(s, RSet(ys[1])) \o DropRanks(ys[1], X)), {"C12"})
    [] o = "scmp" ->
         LET Y == RSet(ys[1])
         IN Res(<<B2I(IF e.z[2] = 0 THEN SetCmp(e.z[1], X, Y) ELSE SetCmp(e.z[1], Y, X))>>, {"C12"})
    [] o = "rel" ->     \* isdisjoint, issubset, issuperset with any iterable
         LET Y == RSet(ys[1])
         IN Res(<<B2I(CASE e.z[1] = 1 -> X \intersect Y = {}
                       [] e.z[1] = 2 -> X \subseteq Y [] OTHER -> Y \subseteq X)>>, {"C12"})
    [] o = "memA" -> Res(Flat([j \in 1 .. Len(e.v) |-> <<QIn(ks, kf, s, e.v[j]), QIn(ks, kf, s, e.v[j])>>]), B)
    [] OTHER -> Unknown

-----------------------------------------------------------------------------
(* Sorted dicts and their views (z[1]: 0 keys, 1 items, 2 values).         *)

ViewSeq(sl, vk) ==      \* the view as a sequence of integer tuples
  [j \in 1 .. Len(sl.s) |->
     CASE vk = 0 -> <<sl.s[j]>> [] vk = 1 -> <<sl.s[j], sl.w[j]>> [] OTHER -> <<sl.w[j]>>]

ViewSet(sl, vk) ==
  IF vk = 0 THEN {<<Rank(sl.s[j])>> : j \in 1 .. Len(sl.s)}
  ELSE {<<Rank(sl.s[j]), WR(sl.w[j])>> : j \in 1 .. Len(sl.s)}

TupLess(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ Len(p) = 2 /\ p[2] < q[2])
SortedFlat(T) == Flat(SetToSortSeq(T, TupLess))

SetOp(op, X, Y) ==
  CASE op = 1 -> X \union Y [] op = 2 -> X \intersect Y [] op = 3 -> X \ Y
    [] OTHER -> (X \ Y) \union (Y \ X)

EView(st, e) ==
  LET a == e.a  sl == st[a]  n == Len(sl.s)  o == e.o  vk == e.z[1]
      vs == ViewSeq(sl, vk)
      P == {"C10"}
      Operand == IF e.b = 0
                 THEN {IF vk = 0 THEN <<Rank(e.v[j])>> ELSE <<Rank(e.v[j]), WR(e.w[j])>> : j \in 1 .. Len(e.v)}
                 ELSE IF vk = 0 THEN {<<Rank(st[e.b].s[j])>> : j \in 1 .. Len(st[e.b].s)}
                 ELSE RWPairs(st[e.b])
      Eq(j, h) == CASE vk = 0 -> Rank(sl.s[j]) = Rank(e.v[h])
                    [] vk = 1 -> Rank(sl.s[j]) = Rank(e.v[h]) /\ WR(sl.w[j]) = WR(e.w[h])
                    [] OTHER -> WR(sl.w[j]) = WR(e.w[h])
      nq == IF vk = 2 THEN Len(e.w) ELSE Len(e.v)
      Pos(h) == {j \in 1 .. n : Eq(j, h)}
      PosIn(h, x, y) ==
        LET lo == IF x = NONE THEN 0 ELSE IF x < 0 THEN Max2(x + n, 0) ELSE x
            hi == IF y = NONE THEN n ELSE IF y < 0 THEN y + n ELSE Min2(y, n)
        IN {j \in Pos(h) : j - 1 >= lo /\ j - 1 < hi}
  IN
  CASE o = "vlen"  -> Res(<<n>>, P)
    [] o = "viter" -> Res(Flat(IF e.z[2] = 1 THEN Reverse(vs) ELSE vs), P)
    [] o = "vinA"  -> Res([h \in 1 .. nq |-> B2I(Pos(h) # {})], P)
    [] o = "vcntA" -> Res([h \in 1 .. nq |-> Cardinality(Pos(h))], P)
    [] o = "vidxA" ->
         Res(Flat([h \in 1 .. nq |-> [g \in 1 .. Len(e.y) |->
               LET Q == PosIn(h, e.y[g][1], e.y[g][2])
               IN IF Q = {} THEN VE ELSE (CHOOSE p \in Q : \A q \in Q : p <= q) - 1]]), P)
    [] o = "vgetA" ->
         Res(Flat([j \in 1 .. e.i[2] - e.i[1] + 1 |->
               LET ix == e.i[1] + j - 1 IN IF InRange(ix, n) THEN At(vs, ix) ELSE <<IE>>]), P)
    [] o = "vgetsA" ->
         Res(Flat([j \in 1 .. Len(e.y) |->
               LET y == e.y[j] IN
               IF y[3] = 0 THEN <<1, VE>>
               ELSE LET q == Slice(vs, y[1], y[2], y[3]) IN <<Len(q)>> \o Flat(q)]), P)
    [] o = "vdel" ->
         IF InRange(e.i[1], n)
         THEN Mut(<<>>, a, KeepD(sl, DDel0(DR(sl), NormIdx(e.i[1], n))), {"C10", "C09"})
         ELSE Res(<<IE>>, P)
    [] o = "vdels" ->
         IF e.i[3] = 0 THEN Res(<<VE>>, P)
         ELSE Mut(<<>>, a, KeepD(sl, DDelPos(DR(sl), SlicePos(e.i[1], e.i[2], e.i[3], n))), {"C10", "C09"})
    [] o = "vset" ->    \* z = <<view, op, reflected>>; the result, as ranks
         LET X == ViewSet(sl, vk)
         IN Res(<<1>> \o SortedFlat(IF e.z[3] = 0 THEN SetOp(e.z[2], X, Operand)
                                    ELSE SetOp(e.z[2], Operand, X)), P)
    [] o = "vcmp" ->
         LET X == ViewSet(sl, vk)
         IN Res(<<B2I(IF e.z[3] = 0 THEN SetCmp(e.z[2], X, Operand)
                      ELSE SetCmp(e.z[2], Operand, X))>>, P)
    [] o = "vdisj" -> Res(<<B2I(ViewSet(sl, vk) \intersect Operand = {})>>, P)
    [] OTHER -> Unknown

ViewOps == {"vlen", "viter", "vinA", "vcntA", "vidxA", "vgetA", "vgetsA", "vdel", "vdels",
            "vset", "vcmp", "vdisj"}

(* What a container says it is, as instances of Sequence, MutableSequence,  *)
(* Set, MutableSet, Mapping, MutableMapping, dict, Sized, Container and    *)
(* Reversible; then hash(), and whether iter and reversed are iterators.   *)
AbcOf(t) ==
  CASE t \in {"L", "K"} -> <<1, 1, 0, 0, 0, 0, 0, 1, 1, 1>>
    [] t = "S" -> <<1, 0, 1, 1, 0, 0, 0, 1, 1, 1>>
    [] OTHER -> <<0, 0, 0, 0, 1, 1, 1, 1, 1, 1>>
         \o <<1, 0, 1, 0, 0, 0, 0, 1, 1, 1>> \o <<1, 0, 1, 0, 0, 0, 0, 1, 1, 1>>
         \o <<1, 0, 0, 0, 0, 0, 0, 1, 1, 1>>
EAbc(st, e) == Res(AbcOf(st[e.a].t) \o <<TE, 1, 1>>, {"C20"})

MISSVAL == 77       \* what __missing__ of the test subclasses returns

EDict(st, e) ==
  LET a == e.a  sl == st[a]  s == sl.s  w == sl.w  kf == sl.k  n == Len(s)  o == e.o
      B == IF sl.c >= 3 THEN {"C09", "C20"} ELSE {"C09"}      \* subclasses with __missing__
      BB == B \union {"C21"}
      x == e.v[1]
      i == IF Len(e.i) = 0 THEN -1 ELSE e.i[1]
      p == FirstEq(kf, s, x)
      R == DR(sl)
      ys == XS(st, e)
      yw == XW(st, e)
  IN
  CASE o = "set" -> Mut(<<>>, a, KeepD(sl, DSet(kf, R, x, e.w[1])), B)
    [] o = "deld" -> IF p < 0 THEN Res(<<KE>>, B) ELSE Mut(<<>>, a, KeepD(sl, DDel0(R, p)), B)
    [] o = "popd" ->
         IF p >= 0 THEN Mut(<<w[p + 1]>>, a, KeepD(sl, DDel0(R, p)), B)
         ELSE Res(IF Len(e.w) = 0 THEN <<KE>> ELSE <<e.w[1]>>, B)
    [] o = "popi" ->
         IF n = 0 THEN Res(<<KE>>, B)
         ELSE IF ~InRange(i, n) THEN Res(<<IE>>, B)
         ELSE Mut(<<At(s, i), At(w, i)>>, a, KeepD(sl, DDel0(R, NormIdx(i, n))), B)
    [] o = "peekA" ->
         Res(Flat([j \in 1 .. e.i[2] - e.i[1] + 1 |->
               LET ix == e.i[1] + j - 1
               IN IF InRange(ix, n) THEN <<At(s, ix), At(w, ix)>> ELSE <<IE>>]), {"C09", "C13"})
    [] o = "peek" ->    \* default index
         Res(IF n = 0 THEN <<IE>> ELSE <<s[n], w[n]>>, {"C09", "C13"})
    [] o = "setd" ->
         IF p >= 0 THEN Res(<<w[p + 1]>>, B)
         ELSE Mut(<<e.w[1]>>, a, KeepD(sl, DSet(kf, R, x, e.w[1])), B)
    [] o = "upd" -> Mut(RAny, a, KeepD(sl, DSetAll(kf, R, ys, yw)), BB)
    [] o = "clr" -> Mut(<<>>, a, KeepD(sl, Nil), BB)
    [] o = "rst" -> Mut(<<>>, a, KeepD(sl, R), {"C08", "C09"})
    [] o = "or" ->
         Mut(<<>>, e.d,
             [KeepD(sl, IF e.z[1] = 0 THEN DSetAll(kf, R, ys, yw)
                        ELSE DSetAll(kf, DSetAll(kf, Nil, ys, yw), s, w)) EXCEPT !.m = "q"],
             BB)
    [] o = "memA" ->   \* in, get(k), get(k, default) of each value
         Res(Flat([j \in 1 .. Len(e.v) |->
               LET pp == FirstEq(kf, s, e.v[j])
               IN <<B2I(pp >= 0), IF pp >= 0 THEN w[pp + 1] ELSE NONE,
                    IF pp >= 0 THEN w[pp + 1] ELSE e.w[1]>>]), B)
    [] o = "look" ->    \* d[k]; classes 3 and 4 define __missing__
         IF p >= 0 THEN Res(<<w[p + 1]>>, {"C09", "C20"})
         ELSE IF sl.c = 3 THEN Res(<<MISSVAL>>, {"C20"})
         ELSE IF sl.c = 4 THEN Mut(<<MISSVAL>>, a, KeepD(sl, DSet(kf, R, x, MISSVAL)), {"C20"})
         ELSE Res(<<KE>>, {"C09"})
    [] o = "dcmp" ->
         LET same == RWPairs(sl) = {<<Rank(ys[j]), WR(yw[j])>> : j \in 1 .. Len(ys)}
         IN Res(<<B2I(IF e.z[1] = 1 THEN same ELSE ~same)>>, {"C17"})
    [] OTHER -> Unknown

-----------------------------------------------------------------------------
(* Operations on plain collections owned by the environment.               *)

EPlain(st, e) ==
  CASE e.o = "pset" ->
         Mut(<<>>, e.a, [t |-> "P", c |-> st[e.a].c, k |-> 0, s |-> e.v, w |-> e.w, m |-> "x"], {"C16"})
    [] OTHER -> Unknown

\* a slice of a container kept as a plain list
ETake(st, e) ==
  LET sl == st[e.a]
  IN Mut(<<>>, e.d, [t |-> "P", c |-> 0, k |-> 0,
                     s |-> Slice(sl.s, e.i[1], e.i[2], e.i[3]), w |-> <<>>, m |-> "x"],
         IF sl.t \in {"L", "K"} THEN {"C02"} ELSE {"C13"})

\* comparison with an unrelated type; z[1] the operator
ECmpX(st, e) ==
  Res(IF e.z[1] = 1 THEN <<0>> ELSE IF e.z[1] = 2 THEN <<1>> ELSE <<TE>>,
      IF st[e.a].t = "S" THEN {"C12"} ELSE {"C17"})

-----------------------------------------------------------------------------

Eff(st, e) ==
  IF e.o = "init" THEN EInit(st, e)
  ELSE IF e.o = "fromk" THEN EFromKeys(st, e)
  ELSE IF e.o = "badkey" THEN Res(<<TE>>, {"C20"})
  ELSE IF e.o = "srep" THEN Res(<<1>>, {"C14"})     \* the repr of what contains itself ends, and says so
  ELSE IF e.o = "drop" THEN
    [r |-> <<>>, ch |-> <<<<e.a, [t |-> "-", c |-> 0, k |-> 0, s |-> <<>>, w |-> <<>>, m |-> "x"]>>>>,
     p |-> {"C18"}, q |-> {"C18"}]
  ELSE IF e.a = 0 THEN Unknown
  ELSE LET t == st[e.a].t IN
  IF e.o \in QueryOps THEN (IF t \in {"L", "K", "S", "D"} THEN EQuery(st, e) ELSE Unknown)
  ELSE IF e.o = "copy" THEN ECopy(st, e)
  ELSE IF e.o = "abc" THEN EAbc(st, e)
  ELSE IF e.o = "take" THEN ETake(st, e)
  ELSE IF e.o = "cmpx" THEN ECmpX(st, e)
  ELSE IF t = "L" \/ t = "K" THEN EList(st, e)
  ELSE IF t = "S" THEN ESet(st, e)
  ELSE IF t = "D" THEN (IF e.o \in ViewOps THEN EView(st, e) ELSE EDict(st, e))
  ELSE IF t = "P" THEN EPlain(st, e)
  ELSE Unknown

-----------------------------------------------------------------------------
(* Calls given arguments that make them fail (C15). f: 1 single-element,   *)
(* 2 bulk addition, 3 bulk removal, 4 pure.                                *)

FaultFail(e, old, new) ==
  LET A == {Rank(x) : x \in {e.v[j] : j \in 1 .. Len(e.v)}} IN
  IF ~WellFormed(new) \/ new.t # old.t \/ new.k # old.k \/ new.c # old.c THEN TRUE
  ELSE IF e.f = 1 \/ e.f = 4 THEN new # old
  ELSE IF e.f = 2 THEN
    IF old.t = "D" THEN
      \/ ~(RSet(old.s) \subseteq RSet(new.s))
      \/ \E p \in Pairs(new) : p \notin Pairs(old) /\ Rank(p[1]) \notin A
    ELSE IF old.t = "S" THEN
      ~(RSet(old.s) \subseteq RSet(new.s)) \/ ~(RSet(new.s) \subseteq RSet(old.s) \union A)
    ELSE LET M == Mult(old.s)  N == Mult(new.s) IN
      \/ \E x \in DOMAIN M : x \notin DOMAIN N \/ N[x] < M[x]
      \/ \E x \in DOMAIN N : Rank(x) \notin A /\ (x \notin DOMAIN M \/ N[x] > M[x])
  ELSE \/ ~({new.s[j] : j \in 1 .. Len(new.s)} \subseteq {old.s[j] : j \in 1 .. Len(old.s)})
       \/ \E j \in 1 .. Len(old.s) : Rank(old.s[j]) \notin (RSet(new.s) \union A)

(* Values without an order between all of them (family cmp): ranks below   *)
(* 50 compare with each other, those from 50 on with each other only, and  *)
(* tag 9 with nothing at all.                                              *)

Cls(x) == IF x % 100 = 9 THEN 2 ELSE IF Rank(x) >= 50 THEN 1 ELSE 0
CanCmp(x, y) == Cls(x) = Cls(y) /\ Cls(x) # 2
AllCmp(S) == \A x, y \in S : x = y \/ CanCmp(x, y)
Ran(s) == {s[j] : j \in 1 .. Len(s)}

\* an error of a call with such arguments has a reason: the call is an error
\* anyway, or two of the values have no order
HasReason(e, o) ==
  LET S == Ran(o.s) \union Ran(e.v) IN ~AllCmp(S) \/ \E x \in S : Cls(x) = 2

=============================================================================
