---------------------------- MODULE TraceMemory ----------------------------
(***************************************************************************)
(* Validates recorded histories of memory use against Memory.  Identities,   *)
(* acceptance and results are other properties' business: objects are        *)
(* named by the specification, and a history in which a request was accepted *)
(* or refused against the contract is followed no further (FOLLOW).          *)
(***************************************************************************)
EXTENDS Memory, TraceBase

VARIABLES hist, l
traceVars == <<cache, insts, heap, tried, hist, l>>

Evs(q) == Trace[q].evs
Ev == Evs(hist)[l]
CellHere == TLCEval(Trace[1].cell)

Wl(e) == CASE e.k = 0 -> 2*e.n [] e.k = 1 -> 2*e.n - 1 [] e.k = 2 -> 2*e.n + 1 [] e.k = 3 -> -1 [] OTHER -> 0
Name == 1000000 + Len(insts)
ObjOf(e) == IF e.p \in Planners /\ Key(e.op, e.n) \in DOMAIN cache[e.p] THEN cache[e.p][Key(e.op, e.n)] ELSE Name

AsAgreed(e) ==
  CASE e.a = "plan" -> ValidPlan(e.op, e.n) = (e.ok = 1)
    [] e.a = "mdct" -> ValidCtor("plan_mdct", e.n, Wl(e), "none") = (e.ok = 1)
    [] OTHER -> TRUE

Allowed(e) ==
  CASE e.a = "new"  -> MNew(e.p, e.kept)
    [] e.a = "drop" -> MDrop(e.p, e.kept)
    [] e.a = "plan" -> IF e.ok = 1 THEN MPlan(e.p, e.op, e.n, ObjOf(e), e.kept, e.gross, e.ops)
                                   ELSE MPlanRefused(e.p, e.op, e.n, e.kept, e.gross, e.ops)
    [] e.a = "mdct" -> MMdct(e.p, e.n, e.w, Wl(e), Name, e.kept, e.gross, e.ops)
    [] e.a = "cycle" -> MCycle(e.p, e.n, e.kept)
    [] e.a \in {"call", "misuse"} -> MCall(e.h, e.kept)
    [] e.a = "free" -> MLetGo(e.h, e.kept)
    [] e.a = "skip" -> UNCHANGED memVars
    [] OTHER -> FALSE

TInit == hist \in 1..N /\ l = 1 /\ MemInit
TStep == /\ l <= Len(Evs(hist)) /\ AsAgreed(Ev)
         /\ Allowed(Ev) /\ NothingForNobody'
         /\ l' = l + 1 /\ UNCHANGED hist
Away(word) == /\ PrintT(<<word, hist, l>>)
              /\ l' = Len(Evs(hist)) + 100000
              /\ UNCHANGED <<hist, cache, insts, heap, tried>>
TLost == l <= Len(Evs(hist)) /\ ~AsAgreed(Ev) /\ Away("LOST")
TReject == l <= Len(Evs(hist)) /\ AsAgreed(Ev) /\ ~ENABLED TStep /\ Away("REJECT")
TNext == TStep \/ TLost \/ TReject
Where == <<hist, l>>           \* see TraceSession
TSpec == TInit /\ [][TNext]_traceVars
=============================================================================
