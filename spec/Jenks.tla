-------------------------------- MODULE Jenks --------------------------------
(***************************************************************************)
(* The algorithm behind every container of the library: a sorted list kept *)
(* as a list of short runs, with the maximum of each run and a positional  *)
(* index (a binary tree of run lengths, built on demand).  A record        *)
(*   ls   the runs            mx   their maxima (keyed: doubled keys)      *)
(*   ks   the runs of doubled keys (keyed lists only)                      *)
(*   ix   the index, <<>> when there is none       off  where its leaves   *)
(*   len  the stored length   load the load factor      start (0-based)    *)
(*   kf   the key function    keyed  TRUE for SortedKeyList                *)
(* One operator per method of SortedList and SortedKeyList, statement by   *)
(* statement; positions are 0-based as in the code.  JenksMC checks that   *)
(* every operator refines its counterpart in Contract and Ops.             *)
(***************************************************************************)
EXTENDS Storage

Get(s, i) == s[i + 1]
Put(s, i, x) == [s EXCEPT ![i + 1] = x]
InsAt0(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
RemAt0(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))

Fresh(load, kf, keyed) ==
  [ls |-> <<>>, ks |-> <<>>, mx |-> <<>>, ix |-> <<>>, off |-> 0, len |-> 0,
   load |-> load, kf |-> kf, keyed |-> keyed]

MxK(r) == IF r.keyed THEN r.mx ELSE KSeq(r.kf, r.mx)
RunK(r, pos) == IF r.keyed THEN Get(r.ks, pos) ELSE KSeq(r.kf, Get(r.ls, pos))
NRuns(r) == Len(r.ls)
Half(load) == load \div 2

-----------------------------------------------------------------------------
(* The positional index.                                                   *)

RECURSIVE Ancestors(_)      \* the nodes from child up to the root, 0-based
Ancestors(c) == IF c = 0 THEN {0} ELSE {c} \union Ancestors((c - 1) \div 2)
AddPath(r, pos, d) ==
  [j \in 1 .. Len(r.ix) |-> IF (j - 1) \in Ancestors(r.off + pos) THEN r.ix[j] + d ELSE r.ix[j]]

PairSums(row) ==
  [j \in 1 .. Len(row) \div 2 |-> row[2 * j - 1] + row[2 * j]]
RECURSIVE Pow2(_)           \* the least power of two that is not less than n
Pow2(n) == IF n <= 1 THEN 1 ELSE 2 * Pow2((n + 1) \div 2)
RECURSIVE Stack(_)          \* the rows above and including row, root first
Stack(row) == IF Len(row) = 1 THEN row ELSE Stack(PairSums(row)) \o row

BuildIndex(r) ==
  LET row0 == [j \in 1 .. NRuns(r) |-> Len(r.ls[j])]
      half == PairSums(row0)
      row1 == IF Len(row0) % 2 = 1 THEN Append(half, row0[Len(row0)]) ELSE half
  IN IF Len(row0) = 1 THEN [r EXCEPT !.ix = row0, !.off = 0]
     ELSE IF Len(row1) = 1 THEN [r EXCEPT !.ix = row1 \o row0, !.off = 1]
     ELSE LET size == Pow2(Len(row1))
              full == [j \in 1 .. size |-> IF j <= Len(row1) THEN row1[j] ELSE 0]
          IN [r EXCEPT !.ix = Stack(full) \o row0, !.off = 2 * size - 1]

Indexed(r) == IF r.ix = <<>> THEN BuildIndex(r) ELSE r

\* _loc: the position of element idx of run pos (r must be Indexed unless pos = 0)
RECURSIVE LocSum(_, _)
LocSum(r, p) ==
  IF p = 0 THEN 0
  ELSE (IF p % 2 = 0 THEN Get(r.ix, p - 1) ELSE 0) + LocSum(r, (p - 1) \div 2)
Loc(r, pos, idx) == IF pos = 0 THEN idx ELSE LocSum(Indexed(r), pos + Indexed(r).off) + idx

\* _pos: <<run, place in it>> of a position, or <<>> when it is out of range
RECURSIVE Descend(_, _, _, _)
Descend(r, pos, child, idx) ==
  IF child >= Len(r.ix) THEN <<pos - r.off, idx>>
  ELSE LET c == Get(r.ix, child) IN
       IF idx < c THEN Descend(r, child, 2 * child + 1, idx)
       ELSE Descend(r, child + 1, 2 * (child + 1) + 1, idx - c)
Pos(r, i0) ==
  LET lastlen == Len(r.ls[NRuns(r)])
      i == IF i0 < 0 THEN i0 + r.len ELSE i0
  IN IF i0 < 0 /\ 0 - i0 <= lastlen THEN <<NRuns(r) - 1, lastlen + i0>>
     ELSE IF i < 0 \/ i >= r.len THEN <<>>
     ELSE IF i < Len(r.ls[1]) THEN <<0, i>>
     ELSE Descend(Indexed(r), 0, 1, i)
\* whether _pos builds the index
PosIndexes(r, i0) ==
  LET i == IF i0 < 0 THEN i0 + r.len ELSE i0 IN
  ~(i0 < 0 /\ 0 - i0 <= Len(r.ls[NRuns(r)])) /\ i >= 0 /\ i < r.len /\ i >= Len(r.ls[1])

-----------------------------------------------------------------------------
(* Growing and shrinking.                                                  *)

Expand(r, pos) ==
  IF Len(Get(r.ls, pos)) > 2 * r.load THEN
    LET run == Get(r.ls, pos)
        lo == SubSeq(run, 1, r.load)  hi == SubSeq(run, r.load + 1, Len(run))
        kr == RunK(r, pos)
        klo == SubSeq(kr, 1, r.load)  khi == SubSeq(kr, r.load + 1, Len(kr))
        top(v, k) == IF r.keyed THEN k[Len(k)] ELSE v[Len(v)]
    IN [r EXCEPT !.ls = InsAt0(Put(@, pos, lo), pos + 1, hi),
                 !.ks = IF r.keyed THEN InsAt0(Put(@, pos, klo), pos + 1, khi) ELSE <<>>,
                 !.mx = InsAt0(Put(@, pos, top(lo, klo)), pos + 1, top(hi, khi)),
                 !.ix = <<>>]
  ELSE IF r.ix # <<>> THEN [r EXCEPT !.ix = AddPath(r, pos, 1)]
  ELSE r

Add(r, x) ==
  LET q == 2 * K(r.kf, x)  m == IF r.keyed THEN q ELSE x IN
  IF r.mx = <<>> THEN
    [r EXCEPT !.ls = <<<<x>>>>, !.ks = IF r.keyed THEN <<<<q>>>> ELSE <<>>, !.mx = <<m>>, !.len = @ + 1]
  ELSE
    LET p0 == IBisR(MxK(r), q)
        last == p0 = Len(r.mx)
        p == IF last THEN p0 - 1 ELSE p0
        at == IF last THEN Len(Get(r.ls, p)) ELSE IBisR(RunK(r, p), q)
        r1 == [r EXCEPT !.ls = Put(@, p, InsAt0(Get(@, p), at, x)),
                        !.ks = IF r.keyed THEN Put(@, p, InsAt0(Get(@, p), at, q)) ELSE <<>>,
                        !.mx = IF last THEN Put(@, p, m) ELSE @]
        r2 == Expand(r1, p)
    IN [r2 EXCEPT !.len = @ + 1]

Top(r, pos) == IF r.keyed THEN Get(r.ks, pos)[Len(Get(r.ks, pos))] ELSE Get(r.ls, pos)[Len(Get(r.ls, pos))]

Delete(r, pos, idx) ==
  LET r1 == [r EXCEPT !.ls = Put(@, pos, RemAt0(Get(@, pos), idx)),
                      !.ks = IF r.keyed THEN Put(@, pos, RemAt0(Get(@, pos), idx)) ELSE <<>>,
                      !.len = @ - 1]
      n == Len(Get(r1.ls, pos))
  IN IF n > Half(r.load) THEN
       [r1 EXCEPT !.mx = Put(@, pos, Top(r1, pos)),
                  !.ix = IF r.ix = <<>> THEN @ ELSE AddPath(r1, pos, -1)]
     ELSE IF NRuns(r1) > 1 THEN
       LET p == IF pos = 0 THEN 1 ELSE pos  prev == p - 1
           ls2 == RemAt0(Put(r1.ls, prev, Get(r1.ls, prev) \o Get(r1.ls, p)), p)
           ks2 == IF r.keyed THEN RemAt0(Put(r1.ks, prev, Get(r1.ks, prev) \o Get(r1.ks, p)), p) ELSE <<>>
           r2 == [r1 EXCEPT !.ls = ls2, !.ks = ks2, !.ix = <<>>]
           r3 == [r2 EXCEPT !.mx = RemAt0(Put(r1.mx, prev, Top(r2, prev)), p)]
       IN Expand(r3, prev)
     ELSE IF n > 0 THEN [r1 EXCEPT !.mx = Put(@, pos, Top(r1, pos))]
     ELSE [r1 EXCEPT !.ls = <<>>, !.ks = <<>>, !.mx = <<>>, !.ix = <<>>]

Clear(r) ==     \* SortedKeyList.clear keeps the offset
  [r EXCEPT !.ls = <<>>, !.ks = <<>>, !.mx = <<>>, !.ix = <<>>, !.len = 0,
            !.off = IF r.keyed THEN @ ELSE 0]

Chunks(z, load) ==
  [j \in 1 .. (Len(z) + load - 1) \div load |-> SubSeq(z, (j - 1) * load + 1, Min2(j * load, Len(z)))]

Fill(r, z) ==   \* the loading of an empty list with sorted values
  LET ls == Chunks(z, r.load) IN
  [r EXCEPT !.ls = ls,
            !.ks = IF r.keyed THEN [j \in 1 .. Len(ls) |-> KSeq(r.kf, ls[j])] ELSE <<>>,
            !.mx = [j \in 1 .. Len(ls) |-> IF r.keyed THEN 2 * K(r.kf, ls[j][Len(ls[j])]) ELSE ls[j][Len(ls[j])]],
            !.len = Len(z), !.ix = <<>>]

Sorted(kf, z) == StableSort(kf, z)

Update(r, xs) ==
  LET v == Sorted(r.kf, xs) IN
  IF r.mx # <<>> THEN
    IF Len(v) * 4 >= r.len THEN Fill(Clear(r), Sorted(r.kf, Flat(r.ls) \o v))
    ELSE FoldLeft(Add, r, v)
  ELSE Fill(r, v)

Reset(r, load) == Update([Clear(r) EXCEPT !.load = load], Flat(r.ls))
IMul(r, k) == Update(Clear(r), Rep(Flat(r.ls), k))

-----------------------------------------------------------------------------
(* Removal by value and by position.                                       *)

\* the place <<run, idx>> of the first element equal to x, or <<>>
RECURSIVE Scan(_, _, _, _, _)
Scan(r, x, q, pos, idx) ==
  IF Get(Get(r.ks, pos), idx) # q THEN <<>>
  ELSE IF Rank(Get(Get(r.ls, pos), idx)) = Rank(x) THEN <<pos, idx>>
  ELSE IF idx + 1 < Len(Get(r.ks, pos)) THEN Scan(r, x, q, pos, idx + 1)
  ELSE IF pos + 1 = NRuns(r) THEN <<>> ELSE Scan(r, x, q, pos + 1, 0)

Find(r, x) ==
  LET q == 2 * K(r.kf, x)  pos == IBisL(MxK(r), q) IN
  IF r.mx = <<>> \/ pos = Len(r.mx) THEN <<>>
  ELSE LET idx == IBisL(RunK(r, pos), q) IN
       IF r.keyed THEN Scan(r, x, q, pos, idx)
       ELSE IF Rank(Get(Get(r.ls, pos), idx)) = Rank(x) THEN <<pos, idx>> ELSE <<>>

Discard(r, x) == LET f == Find(r, x) IN IF f = <<>> THEN r ELSE Delete(r, f[1], f[2])

\* pop and __delitem__ of one position; the index is built when _pos builds it
DelPos1(r, i) ==
  LET p == Pos(r, i)  r1 == IF PosIndexes(r, i) THEN Indexed(r) ELSE r IN Delete(r1, p[1], p[2])

\* pop looks at the ends first
PopAt(r, i) ==
  LET lastlen == Len(r.ls[NRuns(r)]) IN
  IF i >= 0 /\ i < Len(r.ls[1]) THEN Delete(r, 0, i)
  ELSE IF i < 0 /\ 0 - i <= lastlen THEN Delete(r, NRuns(r) - 1, lastlen + i)
  ELSE DelPos1(r, i)

RECURSIVE DelEach(_, _)
DelEach(r, idx) == IF idx = <<>> THEN r ELSE DelEach(DelPos1(r, Head(idx)), Tail(idx))

DelSlice(r, a, b, c) ==
  LET t == SliceIdx(a, b, c, r.len)  start == t[1]  step == t[2]
      stop == IF t[3] = 0 THEN start ELSE start + t[3] * step       \* for step 1 exactly the stop
      ixs == [j \in 1 .. t[3] |-> start + (j - 1) * step]
  IN IF step = 1 /\ start < stop /\ start = 0 /\ stop = r.len THEN Clear(r)
     ELSE IF step = 1 /\ start < stop /\ r.len <= 8 * (stop - start) THEN
       LET s == Flat(r.ls) IN Fill(Clear(r), SubSeq(s, 1, start) \o SubSeq(s, stop + 1, Len(s)))
     ELSE DelEach(r, IF step > 0 THEN Reverse(ixs) ELSE ixs)

-----------------------------------------------------------------------------
(* Queries.                                                                *)

GetItem(r, i) ==
  IF r.len = 0 THEN IE
  ELSE IF i >= 0 /\ i < Len(r.ls[1]) THEN Get(r.ls[1], i)
  ELSE IF i < 0 /\ 0 - i < Len(r.ls[NRuns(r)]) THEN Get(r.ls[NRuns(r)], Len(r.ls[NRuns(r)]) + i)
  ELSE LET p == Pos(r, i) IN IF p = <<>> THEN IE ELSE Get(Get(r.ls, p[1]), p[2])

RECURSIVE GetSlice(_, _, _, _)
GetSlice(r, a, b, c) ==
  LET t == SliceIdx(a, b, c, r.len)  start == t[1]  step == t[2]
      stop == IF t[3] = 0 THEN start ELSE start + t[3] * step
  IN IF step = 1 /\ start < stop THEN
       IF start = 0 /\ stop = r.len THEN Flat(r.ls)
       ELSE LET p == Pos(r, start)
                se == p[2] + stop - start
                q == IF stop = r.len THEN <<NRuns(r) - 1, Len(r.ls[NRuns(r)])>> ELSE Pos(r, stop)
                first == Get(r.ls, p[1])
            IN IF Len(first) >= se THEN SubSeq(first, p[2] + 1, se)
               ELSE SubSeq(first, p[2] + 1, Len(first))
                    \o Flat([j \in 1 .. q[1] - p[1] - 1 |-> Get(r.ls, p[1] + j)])
                    \o SubSeq(Get(r.ls, q[1]), 1, q[2])
     ELSE IF step = -1 /\ t[3] > 0 THEN Reverse(GetSlice(r, stop + 1, start + 1, NONE))
     ELSE [j \in 1 .. t[3] |-> GetItem(r, start + (j - 1) * step)]

\* the elements from <<p, pi>> up to but excluding <<q, qi>>
Between(r, p, pi, q, qi, rv) ==
  LET s == IF p > q THEN <<>>
           ELSE IF p = q THEN SubSeq(Get(r.ls, p), pi + 1, qi)
           ELSE SubSeq(Get(r.ls, p), pi + 1, Len(Get(r.ls, p)))
                \o Flat([j \in 1 .. q - p - 1 |-> Get(r.ls, p + j)])
                \o SubSeq(Get(r.ls, q), 1, qi)
  IN IF rv = 1 THEN Reverse(s) ELSE s

Islice(r, a, b, rv) ==
  LET t == SliceIdx(a, b, NONE, r.len)  start == t[1]  stop == start + t[3] IN
  IF r.len = 0 \/ t[3] = 0 THEN <<>>
  ELSE LET p == Pos(r, start)
           q == IF stop = r.len THEN <<NRuns(r) - 1, Len(r.ls[NRuns(r)])>> ELSE Pos(r, stop)
       IN Between(r, p[1], p[2], q[1], q[2], rv)

\* irange and irange_key, on doubled keys
IrangeKey(r, m2, M2, im, iM, rv) ==
  LET mk == MxK(r)  N == NRuns(r)
      p == IF m2 = NONE THEN 0 ELSE IF im = 1 THEN IBisL(mk, m2) ELSE IBisR(mk, m2)
      pi == IF m2 = NONE THEN 0
            ELSE IF im = 1 THEN IBisL(RunK(r, p), m2) ELSE IBisR(RunK(r, p), m2)
      q0 == IF M2 = NONE THEN N - 1 ELSE IF iM = 1 THEN IBisR(mk, M2) ELSE IBisL(mk, M2)
      q == IF q0 = N THEN N - 1 ELSE q0
      qi == IF M2 = NONE \/ q0 = N THEN Len(Get(r.ls, q))
            ELSE IF iM = 1 THEN IBisR(RunK(r, q), M2) ELSE IBisL(RunK(r, q), M2)
  IN IF r.mx = <<>> THEN <<>>
     ELSE IF m2 # NONE /\ p = N THEN <<>>
     ELSE Between(r, p, pi, q, qi, rv)

BisectL(r, q) ==
  LET p == IBisL(MxK(r), q) IN
  IF r.mx = <<>> THEN 0 ELSE IF p = Len(r.mx) THEN r.len ELSE Loc(r, p, IBisL(RunK(r, p), q))
BisectR(r, q) ==
  LET p == IBisR(MxK(r), q) IN
  IF r.mx = <<>> THEN 0 ELSE IF p = Len(r.mx) THEN r.len ELSE Loc(r, p, IBisR(RunK(r, p), q))

RECURSIVE ScanCount(_, _, _, _, _)
ScanCount(r, x, q, pos, idx) ==
  IF Get(Get(r.ks, pos), idx) # q THEN 0
  ELSE B2I(Rank(Get(Get(r.ls, pos), idx)) = Rank(x)) +
       (IF idx + 1 < Len(Get(r.ks, pos)) THEN ScanCount(r, x, q, pos, idx + 1)
        ELSE IF pos + 1 = NRuns(r) THEN 0 ELSE ScanCount(r, x, q, pos + 1, 0))

CountOf(r, x) ==
  LET q == 2 * K(r.kf, x)  p == IBisL(MxK(r), q) IN
  IF r.mx = <<>> \/ p = Len(r.mx) THEN 0
  ELSE IF r.keyed THEN ScanCount(r, x, q, p, IBisL(RunK(r, p), q))
  ELSE LET il == IBisL(RunK(r, p), q)  pr == IBisR(MxK(r), q) IN
       IF pr = Len(r.mx) THEN r.len - Loc(r, p, il)
       ELSE LET ir == IBisR(RunK(r, pr), q) IN
            IF p = pr THEN ir - il ELSE Loc(r, pr, ir) - Loc(r, p, il)

Norm(r, a, b) ==      \* index: start and stop
  <<IF a = NONE THEN 0 ELSE IF a < 0 THEN Max2(a + r.len, 0) ELSE a,
    IF b = NONE THEN r.len ELSE IF b < 0 THEN b + r.len ELSE Min2(b, r.len)>>

RECURSIVE ScanIndex(_, _, _, _, _, _, _)
ScanIndex(r, x, q, pos, idx, start, stop) ==
  IF Get(Get(r.ks, pos), idx) # q THEN VE
  ELSE LET loc == Loc(r, pos, idx)  hit == Rank(Get(Get(r.ls, pos), idx)) = Rank(x) IN
       IF hit /\ start <= loc /\ loc <= stop THEN loc
       ELSE IF hit /\ loc > stop THEN VE
       ELSE IF idx + 1 < Len(Get(r.ks, pos)) THEN ScanIndex(r, x, q, pos, idx + 1, start, stop)
       ELSE IF pos + 1 = NRuns(r) THEN VE ELSE ScanIndex(r, x, q, pos + 1, 0, start, stop)

IndexOf(r, x, a, b) ==
  LET t == Norm(r, a, b)  start == t[1]  stop == t[2]
      q == 2 * K(r.kf, x)  p == IBisL(MxK(r), q)
  IN IF r.len = 0 \/ stop <= start \/ p = Len(r.mx) THEN VE
     ELSE LET idx == IBisL(RunK(r, p), q) IN
       IF r.keyed THEN ScanIndex(r, x, q, p, idx, start, stop - 1)
       ELSE IF Rank(Get(Get(r.ls, p), idx)) # Rank(x) THEN VE
       ELSE LET left == Loc(r, p, idx) IN
            IF start <= left THEN (IF left <= stop - 1 THEN left ELSE VE)
            ELSE IF start <= BisectR(r, q) - 1 THEN start ELSE VE

-----------------------------------------------------------------------------
(* The storage invariants, in the form the recorder observes them.         *)

Obs(r) == <<[j \in 1 .. NRuns(r) |-> Len(r.ls[j])], Flat(r.ls), r.mx,
            IF r.keyed THEN Flat(r.ks) ELSE <<>>, r.ix, <<r.off, r.load, r.len>>>>
JStorageFail(r, s) == StorageFail([s |-> s, k |-> r.kf], r.keyed, r.load, Obs(r))

=============================================================================
