------------------------------ MODULE Storage -------------------------------
(***************************************************************************)
(* The documented storage invariants of a sorted list (C08): contents are  *)
(* kept in runs; no run longer than twice the load factor, none but the    *)
(* last shorter than half of it; per-run maxima (and keys); a positional   *)
(* index that is empty or a binary tree of run-length sums.                *)
(* An observation y is                                                     *)
(*  <<run lengths, flattened contents, maxima, flattened keys, index,      *)
(*    <<offset, load, len>>>>                                              *)
(* where the maxima and keys of a keyed list are doubled keys.             *)
(***************************************************************************)
EXTENDS Contract

RunsOK(lens, load, n) ==
  /\ FoldLeft(LAMBDA x, y : x + y, 0, lens) = n
  /\ \A j \in 1 .. Len(lens) : lens[j] >= 1 /\ lens[j] <= 2 * load
  /\ \A j \in 1 .. Len(lens) - 1 : lens[j] >= load \div 2

\* 0-based position of the last element of run j
RECURSIVE EndOf(_, _)
EndOf(lens, j) == IF j = 0 THEN 0 ELSE lens[j] + EndOf(lens, j - 1)

Ends(lens) == FoldLeft(LAMBDA acc, x : Append(acc, x + (IF acc = <<>> THEN 0 ELSE acc[Len(acc)])),
                       <<>>, lens)

MaxesOK(t, kf, lens, s, mx) ==
  LET E == Ends(lens) IN
  /\ Len(mx) = Len(lens)
  /\ \A j \in 1 .. Len(mx) :
       IF t = "K" THEN mx[j] = 2 * K(kf, s[E[j]]) ELSE Rank(mx[j]) = Rank(s[E[j]])

KeysOK(kf, s, ks) == Len(ks) = Len(s) /\ \A j \in 1 .. Len(s) : ks[j] = 2 * K(kf, s[j])

\* ix is 1-based here: node j has children 2j and 2j+1
TreeOK(lens, ix, off) ==
  LET N == Len(ix) IN
  /\ N = off + Len(lens)
  /\ \A j \in 1 .. Len(lens) : ix[off + j] = lens[j]
  /\ \A j \in 1 .. off :
       ix[j] = (IF 2 * j <= N THEN ix[2 * j] ELSE 0) + (IF 2 * j + 1 <= N THEN ix[2 * j + 1] ELSE 0)

\* the index may carry stale padding only as the documented self-check allows
StorageFail(sl, keyed, load, y) ==
  LET lens == y[1]  s == y[2]  off == y[6][1]  ld == IF load > 0 THEN load ELSE y[6][2]
  IN IF s # sl.s THEN "contents"
     ELSE IF y[6][3] # Len(s) THEN "length"
     ELSE IF FoldLeft(LAMBDA p, q : p + q, 0, lens) # Len(s) THEN "runs"
     ELSE IF ld >= 4 /\ ~RunsOK(lens, ld, Len(s)) THEN "balance"
     ELSE IF \E j \in 1 .. Len(lens) : lens[j] < 1 THEN "emptyrun"
     ELSE IF ~MaxesOK(IF keyed THEN "K" ELSE "L", sl.k, lens, s, y[3]) THEN "maxes"
     ELSE IF keyed /\ ~KeysOK(sl.k, s, y[4]) THEN "keys"
     ELSE IF y[5] # <<>> /\ (off < 0 \/ ~TreeOK(lens, y[5], off)) THEN "index"
     ELSE ""

=============================================================================
