---------------------------- MODULE TraceSession ----------------------------
(***************************************************************************)
(* Validates recorded histories of real planners against Session.  Every    *)
(* element of the trace is one history: a sequence of events, each of which *)
(* must be a step of Session whose observable part (accepted or refused,    *)
(* length, identity of the object, result of a call) is the recorded one.   *)
(*                                                                         *)
(* FOCUS (from the environment) selects the property that is judged: "C12"  *)
(* identities, "C11" lengths, results and acceptance, "all" everything.     *)
(***************************************************************************)
EXTENDS Field, Session, Bounds, TraceBase

VARIABLES hist, l
traceVars == <<cache, insts, hist, l>>

Focus == IOEnv.FOCUS
J11 == Focus \in {"C11", "all"}
J12 == Focus \in {"C12", "all"}

Evs(q) == Trace[q].evs
Ev == Evs(hist)[l]

Wl(e) == CASE e.k = 0 -> 2*e.n [] e.k = 1 -> 2*e.n - 1 [] e.k = 2 -> 2*e.n + 1 [] e.k = 3 -> -1 [] OTHER -> 0

(* the steps; where identities are not judged the specification picks its own *)
ObjOf(e) == IF J12 THEN e.obj ELSE 1000000 + Len(insts)
Known(e) == Key(e.op, e.n) \in DOMAIN cache[e.p]

TNew(e) == NewPlanner(e.p)
TDrop(e) == DropPlanner(e.p)
TPlan(e) == IF e.ok = 1
            THEN /\ Plan(e.p, e.op, e.n, IF ~J12 /\ Known(e) THEN cache[e.p][Key(e.op, e.n)] ELSE ObjOf(e))
                 /\ J11 => e.len = e.n
            ELSE PlanRefused(e.p, e.op, e.n)
TMdct(e) == IF e.ok = 1
            THEN PlanMdct(e.p, e.n, e.w, Wl(e), ObjOf(e)) /\ (J11 => e.len = e.n)
            ELSE PlanMdctRefused(e.p, e.n, Wl(e))

Exact(e) == "p" \in DOMAIN e
OK(e, n, want) == J11 => IF Exact(e) THEN e.y = want ELSE e.dev <= Loose(n)
TCall(e) == /\ Call(e.h, e.op)
            /\ LET n == insts[e.h].n IN
               IF Exact(e) THEN OK(e, n, Transform(e.op, e.x, e.p, e.g)) /\ Len(e.x) = n
                           ELSE OK(e, n, <<>>)
(* the window of the request, recorded with the call in the exact case *)
TMcall(e) == /\ MdctCalled(e.h)
             /\ J11 => e.same = 1
             /\ LET n == insts[e.h].n IN
                IF Exact(e)
                THEN OK(e, n, IF e.inv = 0 THEN Mdct(n, e.w, e.x, e.b, e.p, e.g) ELSE Imdct(n, e.w, e.x, e.p, e.g))
                ELSE OK(e, n, <<>>)
TMisuse(e) == Misuse(e.h) /\ (J11 => e.ok = 0 /\ e.mod = 0)
TFree(e) == LetGo(e.h)
TSkip(e) == UNCHANGED sessionVars

Allowed(e) ==
  CASE e.a = "new" -> TNew(e)
    [] e.a = "drop" -> TDrop(e)
    [] e.a = "plan" -> TPlan(e)
    [] e.a = "mdct" -> TMdct(e)
    [] e.a = "call" -> TCall(e)
    [] e.a = "mcall" -> TMcall(e)
    [] e.a = "misuse" -> TMisuse(e)
    [] e.a = "free" -> TFree(e)
    [] e.a = "skip" -> TSkip(e)
    [] e.a = "callpanic" -> ~J11 /\ UNCHANGED sessionVars
    [] OTHER -> FALSE

TInit == hist \in 1..N /\ l = 1 /\ SessionInit
TStep == l <= Len(Evs(hist)) /\ Allowed(Ev) /\ l' = l + 1 /\ UNCHANGED hist
(* no step of the specification explains the event: the history ends here *)
TReject == /\ l <= Len(Evs(hist))
           /\ ~ENABLED TStep
           /\ PrintT(<<"REJECT", hist, l>>)
           /\ l' = Len(Evs(hist)) + 100000
           /\ UNCHANGED <<hist, cache, insts>>
TNext == TStep \/ TReject
TSpec == TInit /\ [][TNext]_traceVars
(* A step is determined by the event: the place in the trace determines the state.  For histories   *)
(* of thousands of steps TLC is told so; the invariants of Session, which these steps keep (GenSession), *)
(* are evaluated on the shorter ones only.                                                             *)
Where == <<hist, l>>
Ends == l = Len(Evs(hist)) + 1     \* for counting
=============================================================================
