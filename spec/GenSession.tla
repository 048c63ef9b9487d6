----------------------------- MODULE GenSession -----------------------------
(***************************************************************************)
(* Generates histories of Session for replay on the real code.  The steps   *)
(* are Session's own actions; hist records them in the order of the replay  *)
(* format:                                                                 *)
(*   <<"N",p>> new planner      <<"D",p>> drop planner                      *)
(*   <<"P",p,op,n>> request     <<"M",p,n,w,k>> mdct request, the window    *)
(*                              function misbehaving as k says              *)
(*   <<"C",h,o,style>> call     <<"X",h,kind>> misuse    <<"Z",h>> let go   *)
(* A request that is refused gets a number too (insts has a Refused entry). *)
(***************************************************************************)
EXTENDS Session, Randomization, Json

CONSTANTS Depth, GenLens, GenMdctLens, MaxPlanners, Mode

VARIABLES hist, used, emitted
genVars == <<cache, insts, hist, used, emitted>>

OpSeq == <<"dct1","dct2","dct3","dct4","dct5","dct6","dct7","dct8",
           "dst1","dst2","dst3","dst4","dst5","dst6","dst7","dst8">>
WindowLen(n, k) == CASE k = 0 -> 2*n [] k = 1 -> 2*n - 1 [] k = 2 -> 2*n + 1 [] k = 3 -> -1 [] OTHER -> 0

GInit == SessionInit /\ hist = <<>> /\ used = 0 /\ emitted = FALSE

Step(rec) == hist' = Append(hist, rec)
GNew == /\ used < MaxPlanners
        /\ NewPlanner(used + 1)
        /\ used' = used + 1
        /\ Step(<<"N", used + 1>>)
GDrop(p) == DropPlanner(p) /\ Step(<<"D", p>>) /\ UNCHANGED used
(* objects are named by the order of their first appearance *)
NewName == Len(insts) + 1
GPlan(p, j, n) ==
  LET op == OpSeq[j]
      o == IF Key(op, n) \in DOMAIN cache[p] THEN cache[p][Key(op, n)] ELSE NewName
  IN  /\ Plan(p, op, n, o) \/ PlanRefused(p, op, n)
      /\ Step(<<"P", p, j - 1, n>>) /\ UNCHANGED used
GMdct(p, n, w, k) == /\ \/ PlanMdct(p, n, w, WindowLen(n, k), NewName)
                        \/ PlanMdctRefused(p, n, WindowLen(n, k))
                     /\ Step(<<"M", p, n, w, k>>) /\ UNCHANGED used
GCall(h, o, s) == Misuse(h) /\ Step(<<"C", h, o, s>>) /\ UNCHANGED used
GMisuse(h, k) == Misuse(h) /\ Step(<<"X", h, k>>) /\ UNCHANGED used
GLetGo(h) == LetGo(h) /\ Step(<<"Z", h>>) /\ UNCHANGED used

Rnd(S) == RandomElement(S)
(* a random walk: one successor, drawn by weight *)
Walk ==
  \E die \in {Rnd(1..1000)} :
  IF Planners = {} \/ (die > 960 /\ used < MaxPlanners) THEN GNew
  ELSE IF die > 930 /\ used < MaxPlanners THEN \E p \in {Rnd(Planners)} : GDrop(p)
  ELSE IF die <= 480 \/ LiveInsts = {}
       THEN \E p \in {Rnd(Planners)}, j \in {Rnd(1..16)}, n \in {Rnd(GenLens)} : GPlan(p, j, n)
  ELSE IF die <= 600
       THEN \E p \in {Rnd(Planners)}, n \in {Rnd(GenMdctLens)}, w \in {Rnd(1..3)}, c \in {Rnd(1..12)} :
               GMdct(p, n, w, IF c <= 4 THEN c ELSE 0)
  ELSE IF die <= 860 THEN \E h \in {Rnd(LiveInsts)}, o \in {Rnd(0..3)}, s \in {Rnd(0..23)} : GCall(h, o, s)
  ELSE IF die <= 900 THEN \E h \in {Rnd(LiveInsts)}, k \in {Rnd(0..3)} : GMisuse(h, k)
  ELSE \E h \in {Rnd(LiveInsts)} : GLetGo(h)

(* every history of requests to one planner *)
Every == IF used = 0 THEN GNew
         ELSE \/ \E j \in {1,2,4,5,6,8,9,11,12,13,14,16}, n \in GenLens : GPlan(1, j, n)
              \/ \E n \in GenMdctLens, w \in 1..2 : GMdct(1, n, w, 0)
              \/ \E n \in GenMdctLens, k \in {1, 3} : GMdct(1, n, 1, k)

(***************************************************************************)
(* One planner is asked for all of GenLens of one kind (or of all kinds in   *)
(* turn, or of MDCTs), twice: what it remembers does not depend on how much. *)
(* Calls of what it returned come in between in the second round.           *)
(***************************************************************************)
HalfDepth == Depth \div 2
SweepLen(i) == 1 + ((i * 7) % HalfDepth)          \* Depth/2 is not a multiple of 7
Sweep == IF used = 0 THEN GNew
         ELSE IF Len(hist) = 1
         THEN \E j \in 1..18 : IF j = 18 THEN GMdct(1, 8, 1, 0) ELSE GPlan(1, IF j = 17 THEN 2 ELSE j, IF j = 17 THEN 1024 ELSE 2)
         ELSE LET first == hist[2]
                  i == (Len(hist) - 2) % HalfDepth
                  n == SweepLen(i)
                  h == 1 + ((i * 5) % Len(insts))
              IN  IF Len(hist) > HalfDepth + 2 /\ i % 5 = 4 /\ h \in LiveInsts THEN GCall(h, 0, i % 24)
                  ELSE IF first[1] = "M" THEN GMdct(1, 2 * n, 1 + (n % 3), 0)
                  ELSE IF first[4] = 1024 THEN GPlan(1, 1 + (i % 16), 1 + (n \div 4))
                  ELSE GPlan(1, first[3] + 1, n)

Emit == /\ Len(hist) = Depth /\ ~emitted
        /\ PrintT("HIST " \o ToJson(hist))
        /\ emitted' = TRUE
        /\ UNCHANGED <<cache, insts, hist, used>>
GNext == \/ /\ Len(hist) < Depth
            /\ CASE Mode = "walk" -> Walk [] Mode = "sweep" -> Sweep [] OTHER -> Every
            /\ UNCHANGED emitted
         \/ Emit
GSpec == GInit /\ [][GNext]_genVars
=============================================================================
