------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* Session with the memory the library holds.                               *)
(*                                                                         *)
(*   heap    bytes held by planners and instances together                  *)
(*   tried   planner -> lengths an MDCT was asked for (its inner DCT4 stays  *)
(*           in the planner, whether or not the MDCT was refused)            *)
(*                                                                         *)
(* Every step of Session says how many bytes it may add, and how much may   *)
(* be held for what is asked for and alive: held memory is bounded by the   *)
(* lengths, never by the number of requests or calls, and nothing is held    *)
(* for nobody.  That is C20.                                               *)
(***************************************************************************)
EXTENDS Session, Bounds, FiniteSetsExt

CONSTANTS Cell,    \* size of the number type
          Base,    \* bytes that may be kept whatever the length (Bounds!BaseBytes)
          Per      \* cells that may be kept per unit of length (Bounds!PerLength)

VARIABLES heap, tried
memVars == <<cache, insts, heap, tried>>

KeptBytes(cell, n) == Base + Per * cell * n
Sum(f(_), S) == MapThenSumSet(f, S)

(* what planners and instances alive may hold; counted without regard to    *)
(* sharing, so this is generous                                            *)
Entitled(ch, is, tr) ==
  LET key(k)  == KeptBytes(Cell, k[2])
      len(n)  == KeptBytes(Cell, n)
      pl(p)   == Base + Sum(key, DOMAIN ch[p]) + Sum(len, tr[p])
      hand(h) == KeptBytes(Cell, is[h].n)
  IN  Sum(pl, DOMAIN ch) + Sum(hand, {h \in DOMAIN is : is[h].live})

MemInit == SessionInit /\ heap = 0 /\ tried = <<>>

(* kept: the bytes held after the step that were not held before it          *)
Grow(kept, most) == /\ kept <= most
                    /\ heap' = heap + kept
                    /\ heap' <= Entitled(cache', insts', tried')
                    /\ heap' >= 0

MNew(p, kept) == /\ NewPlanner(p)
                 /\ tried' = (p :> {}) @@ tried
                 /\ Grow(kept, Base)
MDrop(p, kept) == /\ DropPlanner(p)
                  /\ tried' = [q \in DOMAIN tried \ {p} |-> tried[q]]
                  /\ Grow(kept, 0)
(* a repeated request keeps and takes nothing *)
MPlan(p, op, n, o, kept, gross, ops) ==
  LET again == p \in Planners /\ Key(op, n) \in DOMAIN cache[p] IN
  /\ Plan(p, op, n, o)
  /\ UNCHANGED tried
  /\ Grow(kept, IF again THEN 0 ELSE KeptBytes(Cell, n))
  /\ gross <= IF again THEN Base ELSE TakenBytes(Cell, n)
  /\ ops <= IF again THEN 0 ELSE PlanOps(n)
MPlanRefused(p, op, n, kept, gross, ops) ==
  /\ PlanRefused(p, op, n)
  /\ UNCHANGED tried
  /\ Grow(kept, 0)
  /\ gross <= TakenBytes(Cell, n) /\ ops <= PlanOps(n)
MMdct(p, n, w, wl, o, kept, gross, ops) ==
  /\ \/ PlanMdct(p, n, w, wl, o) \/ PlanMdctRefused(p, n, wl)
  /\ tried' = [tried EXCEPT ![p] = @ \cup {n}]
  /\ Grow(kept, KeptBytes(Cell, n))
  /\ gross <= TakenBytes(Cell, n) /\ ops <= PlanOps(n)
(* an MDCT asked for and let go again (or refused) any number of times, each  *)
(* time with another window: no more is kept than of one                     *)
MCycle(p, n, kept) ==
  /\ p \in Planners
  /\ tried' = [tried EXCEPT ![p] = @ \cup {n}]
  /\ UNCHANGED sessionVars
  /\ Grow(kept, KeptBytes(Cell, n))
(* calls, accepted or rejected, keep nothing *)
MCall(h, kept) == /\ Misuse(h)
                  /\ UNCHANGED tried
                  /\ Grow(kept, 0)
MLetGo(h, kept) == /\ LetGo(h)
                   /\ UNCHANGED tried
                   /\ Grow(kept, 0)

NothingForNobody == Planners = {} /\ LiveInsts = {} => heap = 0
Held == heap <= Entitled(cache, insts, tried)

(***************************************************************************)
(* Closed form for TLC: every step adds or gives back anything it may        *)
(***************************************************************************)
CONSTANTS SomeLens, Bytes, Longest
SomeBytes == {0, Base + 80, 0 - (Base + 80)}
MemNext ==
  /\ Len(insts) < Longest
  /\ \E k \in Bytes :
     \/ \E p \in 1..2 : MNew(p, k) \/ MDrop(p, k)
     \/ \E p \in 1..2, n \in SomeLens, op \in {"dct1", "dct2"} :
          \/ \E o \in {IF p \in Planners /\ Key(op, n) \in DOMAIN cache[p] THEN cache[p][Key(op, n)] ELSE 1 + Len(insts)} : MPlan(p, op, n, o, k, 0, 0)
          \/ MPlanRefused(p, op, n, k, 0, 0)
     \/ \E p \in 1..2, n \in SomeLens, d \in {0, 1} : MMdct(p, n, 1, 2*n - d, 1 + Len(insts), k, 0, 0)
     \/ \E h \in LiveInsts : MCall(h, k) \/ MLetGo(h, k)
  /\ NothingForNobody'
MemSpec == MemInit /\ [][MemNext]_memVars
(* what is held is bounded by what is distinct and alive: at most two        *)
(* planners, their keys, the lengths tried, and the instances               *)
NoAccumulation ==
  heap <= LET most == KeptBytes(Cell, CHOOSE n \in SomeLens : \A m \in SomeLens : m <= n)
          IN  Cardinality(Planners) * (Base + most * (3 + 2) * Cardinality(SomeLens)) + most * Cardinality(LiveInsts)
=============================================================================
