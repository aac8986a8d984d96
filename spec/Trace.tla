------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: every recorded execution of the real library must be  *)
(* a behaviour of the specification Ops.  One behaviour per recorded trace;*)
(* each step evaluates every clause on one recorded call and prints a FAIL *)
(* line naming the clause and the properties it belongs to.  Verdicts are  *)
(* total: the specification state is then resynchronised with what was     *)
(* observed, so that the rest of the trace is checked too.                 *)
(***************************************************************************)
EXTENDS Ops, Storage, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
NSlots == 6

VARIABLES tid, l, st, ld, lm, cp, nf, lastr

vars == <<tid, l, st, ld, lm, cp, nf, lastr>>

Init ==
  /\ tid \in 1 .. Len(Traces)
  /\ l = 1
  /\ st = [j \in 1 .. NSlots |-> EmptySlot]
  /\ ld = [j \in 1 .. NSlots |-> 0]
  /\ lm = [j \in 1 .. NSlots |-> {}]
  /\ cp = {}
  /\ nf = 0
  /\ lastr = <<>>

-----------------------------------------------------------------------------
(* What was observed after the call: changes are recorded as splices.      *)

Splice(s, pre, suf, ins) == SubSeq(s, 1, pre) \o ins \o SubSeq(s, Len(s) - suf + 1, Len(s))

TCode(x) == CASE x = 0 -> "-" [] x = 1 -> "L" [] x = 2 -> "K" [] x = 3 -> "S" [] x = 4 -> "D"
              [] x = 5 -> "P" [] OTHER -> "?"

\* ch = <<slot, type, class, key, len, pre, suf, ins, wpre, wsuf, wins>>
ApplyCh(cur, ch) ==
  [cur EXCEPT ![ch[1]] =
     [t |-> TCode(ch[2]), c |-> ch[3], k |-> ch[4], n |-> ch[5],
      s |-> Splice(cur[ch[1]].s, ch[6], ch[7], ch[8]),
      w |-> Splice(cur[ch[1]].w, ch[9], ch[10], ch[11])]]

Observed(cur, e) == IF e.c = <<>> THEN cur ELSE FoldLeft(ApplyCh, cur, e.c)

-----------------------------------------------------------------------------
PureOps == QueryOps \union (ViewOps \ {"vdel", "vdels"}) \union
  {"cmp", "cmpx", "scmp", "rel", "memA", "peek", "peekA", "dcmp", "copy", "take", "plus", "mul",
   "uni", "int", "dif", "rdif", "sym", "or", "refuse", "chk", "badkey", "abc", "srep", "init", "fromk"}
AlgebraOps == {"uni", "int", "dif", "rdif", "sym"}
MakeOps == {"init", "fromk", "copy", "plus", "mul", "uni", "int", "dif", "rdif", "sym", "or"}

KindLabels(e, eff) ==
  IF e.o \in {"init", "fromk", "plus", "mul", "or"} THEN {"C20"}
  ELSE IF e.o = "copy" THEN {"C14", "C20"} ELSE eff.q

Targets(eff) == {eff.ch[j][1] : j \in 1 .. Len(eff.ch)}

\* cost (C19): comparisons g[1], key-function calls g[2] of this call; -1: not measured
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

NoCompare == {"getA", "getsA", "islA", "iter", "rev", "len", "pop", "del", "popi", "peek", "peekA",
              "viter", "vgetA", "vgetsA", "vlen", "clr"}
Elementary(e) ==     \* how many by-value calls the event makes
  CASE e.o \in {"qA"} -> 4 * Len(e.v)
    [] e.o = "memA" -> 3 * Len(e.v)
    [] e.o = "idxA" -> Len(e.v) * Len(e.y)
    [] e.o \in {"irA", "kirA"} -> 2 * Len(e.y)
    [] e.o = "kqA" -> 2 * Len(e.i)
    [] OTHER -> 1

CostOps == {"qA", "memA", "idxA", "irA", "kirA", "kqA", "add", "rem", "dis", "set", "deld", "popd",
            "setd", "look"}

CostFail(e, n) ==
  IF e.g[1] < 0 THEN FALSE
  ELSE IF e.o \in NoCompare THEN e.g[1] # 0 \/ e.g[2] # 0
  ELSE IF e.o \in CostOps THEN
       \/ e.g[1] > Elementary(e) * (4 * Log2(n + 1) + 12)
       \/ e.g[2] > Elementary(e) * 5
  ELSE FALSE

\* lifetimes (C18): the registered objects still alive must be exactly those contained
Contained(o) == UNION {{o[j].s[h] : h \in 1 .. Len(o[j].s)} \union
                       {o[j].w[h] : h \in 1 .. Len(o[j].w)} : j \in 1 .. NSlots}
AliveFail(e, o) ==
  /\ e.al # <<-1>>
  /\ {e.al[j] : j \in 1 .. Len(e.al)} # Contained(o)

-----------------------------------------------------------------------------
(* All failing clauses of an ordinary event: a set of <<clause, labels>>.  *)

Fails(e, eff, obs) ==
  LET T == Targets(eff)
      a == e.a
      rl == IF a = 0 THEN eff.p
            ELSE eff.p \union (IF e.o \in PureOps THEN lm[a] ELSE {})
      err == IF IsErr(eff.r) THEN {"C15"} ELSE {}
      ResF == IF eff.r = RAny THEN (IF IsErr(e.r) THEN {<<"raised", eff.q>>} ELSE {})
              ELSE IF e.r # eff.r THEN {<<"result", rl>>} ELSE {}
      ChF == UNION {LET x == eff.ch[j][2]  o == obs[eff.ch[j][1]] IN
                IF ~KindOK(x, o) THEN {<<"kind", KindLabels(e, eff)>>}
                ELSE IF ~WellFormed(o) THEN {<<"order", eff.q>>}
                ELSE IF ~ContentOK(x, o) THEN {<<"state", eff.q>>} ELSE {}
             : j \in 1 .. Len(eff.ch)}
      OtF == UNION {IF j \in T \/ obs[j] = st[j] THEN {}
                ELSE IF j = a /\ e.o \notin PureOps THEN {<<"frame", eff.q \union err>>}
                ELSE IF j = a THEN {<<"impure", {"C16"} \union Broad(st[j].t)>>}
                ELSE {<<"other", {"C16"} \union cp>>}
             : j \in 1 .. NSlots}
      TwF == IF e.tw = 1 /\ e.r # lastr THEN {<<"twin", {"C21"}>>} ELSE {}
      CoF == IF a # 0 /\ CostFail(e, Max2(Len(st[a].s), Len(obs[a].s))) THEN {<<"cost", {"C19"}>>} ELSE {}
      ArF == IF e.am # 0 THEN {<<"argument", {"C16"}>>} ELSE {}
      AlF == IF AliveFail(e, obs) THEN {<<"alive", {"C18"}>>} ELSE {}
  IN ResF \union (IF e.c = <<>> /\ eff.ch = <<>> THEN {} ELSE ChF \union OtF)
          \union TwF \union CoF \union AlF \union ArF

\* the self-check and the storage it looks at
ChkFails(e) ==
  LET sf == IF e.y = <<>> THEN "" ELSE StorageFail(st[e.a], e.z[1] = 1, ld[e.a], e.y)
  IN (IF e.r # <<0>> THEN {<<"selfcheck", {"C08"}>>} ELSE {})
     \union (IF sf # "" THEN {<<"storage-" \o sf, {"C08"}>>} ELSE {})

Carry == {"C01", "C03", "C14", "C15"}
NewLm(e, eff, j) ==
  IF j \in Targets(eff)
  THEN IF e.o = "copy" THEN {"C14"} ELSE eff.q \intersect Carry
  ELSE IF j = e.a /\ e.o \notin PureOps THEN (IF IsErr(eff.r) THEN lm[j] \union {"C15"} ELSE lm[j])
  ELSE lm[j]

NewLd(e, eff, j) ==
  IF e.o = "rst" /\ j = e.a THEN e.i[1]
  ELSE IF j \in Targets(eff) /\ e.o \in MakeOps THEN (IF e.o = "init" /\ e.i # <<>> THEN e.i[1] ELSE 0)
  ELSE ld[j]

Report(F) ==
  \A x \in F : PrintT("FAIL|" \o ToString(tid) \o "|" \o ToString(l) \o "|" \o x[1] \o "|" \o ToString(x[2]))

LastEv == Len(Traces[tid].ev)

Step ==
  /\ l <= LastEv
  /\ tid' = tid
  /\ LET e == Traces[tid].ev[l]
         obs == Observed(st, e)
     IN IF e.f > 0 /\ (e.o = "fault" \/ (IsErr(e.r) /\ HasReason(e, st[e.a]))) THEN
          LET raised == IsErr(e.r)
              bad == \/ raised /\ FaultFail(e, st[e.a], obs[e.a])
                     \/ \E j \in 1 .. NSlots : j # e.a /\ obs[j] # st[j]
          IN /\ (bad => Report({<<"fault", {"C15"}>>}))
             /\ st' = obs
             /\ ld' = ld
             /\ lm' = [lm EXCEPT ![e.a] = IF raised THEN @ \union {"C15"} ELSE @]
             /\ cp' = cp
             /\ lastr' = e.r
             /\ nf' = nf + B2I(bad)
             /\ l' = IF bad \/ (obs # st /\ ~WellFormed(obs[e.a])) THEN LastEv + 1 ELSE l + 1
        ELSE IF e.o = "chk" THEN
          LET F == ChkFails(e) \union
                   (IF obs # st THEN {<<"impure", {"C16"}>>} ELSE {})
          IN /\ (F # {} => Report(F))
             /\ st' = obs /\ ld' = ld /\ lm' = lm /\ cp' = cp /\ lastr' = e.r
             /\ nf' = nf + B2I(F # {})
             /\ l' = IF F # {} THEN LastEv + 1 ELSE l + 1
        ELSE
          LET eff == Eff(st, e)
              F == Fails(e, eff, obs)
              sane == \A j \in 1 .. NSlots : obs[j] = st[j] \/ (WellFormed(obs[j]) /\ obs[j].t # "?")
          IN /\ (F # {} => Report(F))
             /\ st' = obs
             /\ cp' = cp \union (IF e.o = "copy" THEN {"C14"} ELSE IF e.o \in AlgebraOps THEN {"C12"} ELSE {})
             /\ IF eff.ch = <<>> /\ ~IsErr(eff.r) THEN lm' = lm /\ ld' = ld
                ELSE /\ lm' = [j \in 1 .. NSlots |-> NewLm(e, eff, j)]
                     /\ ld' = [j \in 1 .. NSlots |-> NewLd(e, eff, j)]
             /\ lastr' = e.r
             /\ nf' = nf + B2I(F # {})
             /\ l' = IF F # {} /\ (nf >= 8 \/ ~sane \/ (e.a # 0 /\ obs[e.a].t # st[e.a].t)) THEN LastEv + 1 ELSE l + 1

Next == Step
Spec == Init /\ [][Next]_vars

=============================================================================
