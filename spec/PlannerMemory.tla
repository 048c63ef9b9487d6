---------------------------- MODULE PlannerMemory ----------------------------
(***************************************************************************)
(* What the planner as built holds: the tables of every object that a cache  *)
(* or the program can still reach.  Its steps are steps of Memory (C20),     *)
(* counted in cells.                                                       *)
(***************************************************************************)
EXTENDS PlannerImpl

VARIABLE tried
pmVars == <<store, icache, asked, handed, cache, insts, tried>>

Cached == UNION {{icache[p][k] : k \in DOMAIN icache[p]} : p \in DOMAIN icache}
Handed == {handed[h].obj : h \in {g \in DOMAIN handed : handed[g].live}}
Heap == CellsOf(Cached \cup Handed)

M == INSTANCE Memory WITH heap <- Heap, Cell <- 1, Base <- 32, Per <- 40, SomeLens <- {}, Bytes <- {}, Longest <- 0

PInit == ImplInit /\ tried = <<>>
PNext ==
  /\ \/ \E p \in PlannerIds : INew(p) /\ tried' = (p :> {}) @@ tried
     \/ \E p \in PlannerIds : IDrop(p) /\ tried' = [q \in DOMAIN tried \ {p} |-> tried[q]]
     \/ \E p \in PlannerIds, n \in Lens, op \in UsedOps : (IPlan(p, op, n) \/ IPlanRefused(p, op, n)) /\ UNCHANGED tried
     \/ \E p \in PlannerIds, n \in Lens, d \in {0, 1} : IPlanMdct(p, n, 1, 2*n - d) /\ tried' = [tried EXCEPT ![p] = @ \cup {n}]
     \/ \E h \in DOMAIN handed : ILetGo(h) /\ UNCHANGED tried
  /\ Projected
PSpec == PInit /\ [][PNext]_pmVars

MemStep ==
  LET k == Heap' - Heap IN
  \/ \E p \in PlannerIds : M!MNew(p, k) \/ M!MDrop(p, k)
  \/ \E p \in PlannerIds, n \in Lens, op \in UsedOps :
        \/ \E o \in 1..Len(store') : M!MPlan(p, op, n, o, k, 0, 0)
        \/ M!MPlanRefused(p, op, n, k, 0, 0)
  \/ \E p \in PlannerIds, n \in Lens, d \in {0, 1}, o \in 1..(1 + Len(store')) : M!MMdct(p, n, 1, 2*n - d, o, k, 0, 0)
  \/ \E h \in DOMAIN insts : M!MLetGo(h, k)
MemoryRefined == [][MemStep]_pmVars
NothingForNobody == M!NothingForNobody
Held == M!Held
=============================================================================
