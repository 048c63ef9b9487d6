------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* What a program sees of planners and instances.                           *)
(*                                                                         *)
(*   cache   for every planner alive: which shared object answers which     *)
(*           request.  A request is a key <<family, length>>; kinds served  *)
(*           by one object have the same family (Defs!Family).              *)
(*   insts   what has been handed out, in order.  An entry never changes    *)
(*           except that the program may let go of it.                      *)
(*                                                                         *)
(* Results of calls are no part of the state: a call of instance h with op  *)
(* on x returns the transform op of length insts[h].n of x (an MDCT: with   *)
(* the window insts[h].win), whatever the state is.  That is C11 and C13.   *)
(***************************************************************************)
EXTENDS Contract, TLC

VARIABLES cache, insts
sessionVars == <<cache, insts>>

ValidPlan(op, n) == ValidCtor("plan", n, 0, op)
Key(op, n) == <<Family(op), n>>
Refused == [live |-> FALSE, fam |-> "refused", pl |-> 0, n |-> 0, win |-> 0, obj |-> 0]
Planners == DOMAIN cache
LiveInsts == {h \in DOMAIN insts : insts[h].live}

(* no object of another length or of another planner is known by this name *)
Fresh(p, n, o) ==
  /\ \A q \in Planners : \A k \in DOMAIN cache[q] : cache[q][k] = o => q = p /\ k[2] = n
  /\ \A h \in LiveInsts : insts[h].obj = o => insts[h].pl = p /\ insts[h].n = n

Instance(p, fam, n, w, o) == [live |-> TRUE, fam |-> fam, pl |-> p, n |-> n, win |-> w, obj |-> o]

SessionInit == cache = <<>> /\ insts = <<>>

(* planners are named apart, also from dropped ones *)
Unused(p) == p \notin Planners /\ \A h \in DOMAIN insts : insts[h].pl # p
NewPlanner(p) == /\ Unused(p)
                 /\ cache' = (p :> <<>>) @@ cache
                 /\ UNCHANGED insts

(* instances outlive their planner *)
DropPlanner(p) == /\ p \in Planners
                  /\ cache' = [q \in Planners \ {p} |-> cache[q]]
                  /\ UNCHANGED insts

(* a request for a DCT or DST; o is the object that is handed out *)
Plan(p, op, n, o) ==
  /\ p \in Planners
  /\ ValidPlan(op, n)
  /\ IF Key(op, n) \in DOMAIN cache[p]
     THEN /\ o = cache[p][Key(op, n)]
          /\ UNCHANGED cache
     ELSE /\ Fresh(p, n, o)
          /\ cache' = [cache EXCEPT ![p] = (Key(op, n) :> o) @@ @]
  /\ insts' = Append(insts, Instance(p, Family(op), n, 0, o))

PlanRefused(p, op, n) ==
  /\ p \in Planners
  /\ ~ValidPlan(op, n)
  /\ insts' = Append(insts, Refused)
  /\ UNCHANGED cache

(* a request for an MDCT with window w; which of them share is not visible  *)
(* to a program, except through wrong results                              *)
PlanMdct(p, n, w, windowLen, o) ==
  /\ p \in Planners
  /\ ValidCtor("plan_mdct", n, windowLen, "none")
  /\ Fresh(p, n, o)
  /\ insts' = Append(insts, Instance(p, "mdct", n, w, o))
  /\ UNCHANGED cache

PlanMdctRefused(p, n, windowLen) ==
  /\ p \in Planners
  /\ ~ValidCtor("plan_mdct", n, windowLen, "none")
  /\ insts' = Append(insts, Refused)
  /\ UNCHANGED cache

LetGo(h) == /\ h \in LiveInsts
            /\ insts' = [insts EXCEPT ![h].live = FALSE]
            /\ UNCHANGED cache

(* calls change nothing *)
Call(h, op) == /\ h \in LiveInsts
               /\ insts[h].fam = Family(op)
               /\ UNCHANGED sessionVars
MdctCalled(h) == /\ h \in LiveInsts
                 /\ insts[h].fam = "mdct"
                 /\ UNCHANGED sessionVars
Misuse(h) == h \in LiveInsts /\ UNCHANGED sessionVars

(***************************************************************************)
(* C12 as invariants and C11 as an action property                         *)
(***************************************************************************)
SharedWithinPlanner ==
  \A g, h \in LiveInsts :
     /\ insts[g].pl = insts[h].pl /\ insts[g].pl \in Planners
     /\ insts[g].fam = insts[h].fam /\ insts[g].n = insts[h].n /\ insts[g].fam # "mdct"
     => insts[g].obj = insts[h].obj
NotSharedOtherwise ==
  \A g, h \in LiveInsts :
     insts[g].obj = insts[h].obj => insts[g].pl = insts[h].pl /\ insts[g].n = insts[h].n
HandedOutNeverChanges ==
  [][\A h \in DOMAIN insts : /\ h \in DOMAIN insts'
                             /\ [insts'[h] EXCEPT !.live = TRUE] = [insts[h] EXCEPT !.live = TRUE]]_sessionVars
=============================================================================
