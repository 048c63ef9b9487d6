---------------------------- MODULE PlannerImpl ----------------------------
(***************************************************************************)
(* The planner as it is built: ten caches, one per family, requests that    *)
(* recurse into the planner itself, and the choice of algorithm for every   *)
(* kind and length.  An object is a record [alg, len, inner], inner being   *)
(* the objects (or FFT lengths) it was constructed over.                    *)
(*                                                                         *)
(* The observable part (which objects were handed out for which request)    *)
(* refines Session; that every constructor precondition is met, that every  *)
(* inner transform gets the scratch it advertises, and that the cost of     *)
(* what was chosen obeys C16, are invariants of the object store.           *)
(***************************************************************************)
EXTENDS Session, Bounds, SequencesExt, FiniteSetsExt

CONSTANTS PlannerIds,   \* planners that may be created
          Lens,         \* lengths that may be requested
          UsedOps,      \* kinds that may be requested
          MaxInsts,     \* how many requests a history has
          LettingGo     \* the program lets go of instances

VARIABLES store,    \* all objects ever built: sequence of records
          icache,   \* planner -> (key -> index into store)
          asked,    \* planner -> keys requested from outside (history)
          handed    \* sequence of [p, key, win, obj] (history)
implVars == <<store, icache, asked, handed>>
allVars == <<store, icache, asked, handed, cache, insts>>

(***************************************************************************)
(* Construction.  st is [s |-> store, c |-> cache of the planner].          *)
(***************************************************************************)
Obj(alg, len, inner, fft) == [alg |-> alg, len |-> len, inner |-> inner, fft |-> fft]
Add(st, o) == [s |-> Append(st.s, o), c |-> st.c]
Remember(st, key) == [s |-> st.s, c |-> (key :> Len(st.s)) @@ st.c]

RECURSIVE WithT23(_, _)
(* st extended by an answer to "t23 of length n" *)
WithT23(st, n) ==
  IF <<"t23", n>> \in DOMAIN st.c THEN st
  ELSE Remember(
    IF n \in {2,3,4,8,16} THEN Add(st, Obj("Type2And3Butterfly", n, <<>>, 0))
    ELSE IF IsPow2(n) /\ n > 2
         THEN LET s1 == WithT23(st, n \div 2)
                  s2 == WithT23(s1, n \div 4)
              IN  Add(s2, Obj("Type2And3SplitRadix", n,
                              <<s2.c[<<"t23", n \div 2>>], s2.c[<<"t23", n \div 4>>]>>, 0))
         ELSE Add(st, Obj("Type2And3ConvertToFft", n, <<>>, n)),
    <<"t23", n>>)

WithT4(st, n) ==
  IF <<"t4", n>> \in DOMAIN st.c THEN st
  ELSE Remember(
    IF n % 2 = 0
    THEN IF n < 6 THEN Add(st, Obj("Type4Naive", n, <<>>, 0))
         ELSE LET s1 == WithT23(st, n \div 2)
              IN  Add(s1, Obj("Type4ConvertToType3Even", n, <<s1.c[<<"t23", n \div 2>>]>>, 0))
    ELSE IF n < 7 THEN Add(st, Obj("Type4Naive", n, <<>>, 0))
         ELSE Add(st, Obj("Type4ConvertToFftOdd", n, <<>>, n)),
    <<"t4", n>>)

WithLeaf(st, fam, n) ==
  IF <<fam, n>> \in DOMAIN st.c THEN st
  ELSE Remember(Add(st,
    CASE fam = "dct1" -> IF n < 10 THEN Obj("Dct1Naive", n, <<>>, 0)
                                   ELSE Obj("Dct1ConvertToFft", n, <<>>, 2*(n-1))
      [] fam = "dst1" -> IF n < 25 THEN Obj("Dst1Naive", n, <<>>, 0)
                                   ELSE Obj("Dst1ConvertToFft", n, <<>>, 2*(n+1))
      [] fam = "s67"  -> IF n < 45 THEN Obj("Dst6And7Naive", n, <<>>, 0)
                                   ELSE Obj("Dst6And7ConvertToFft", n, <<>>, 2*n+1)
      [] fam = "c67"  -> Obj("Dct6And7Naive", n, <<>>, 0)
      [] fam = "dct5" -> Obj("Dct5Naive", n, <<>>, 0)
      [] fam = "dst5" -> Obj("Dst5Naive", n, <<>>, 0)
      [] fam = "dct8" -> Obj("Dct8Naive", n, <<>>, 0)
      [] fam = "dst8" -> Obj("Dst8Naive", n, <<>>, 0)),
    <<fam, n>>)

With(st, fam, n) == CASE fam = "t23" -> WithT23(st, n)
                      [] fam = "t4"  -> WithT4(st, n)
                      [] OTHER       -> WithLeaf(st, fam, n)

(***************************************************************************)
(* What an object asks for and costs.  An FFT of length m is assumed to     *)
(* need at most FftScratch(m) complex cells and FftWork(m) operations.      *)
(***************************************************************************)
FftScratch(m) == 9 * m
FftWork(m)    == 24 * m * (Lg(m) + 1)

RECURSIVE Scratch(_, _)
Scratch(s, o) ==
  LET r == s[o] n == r.len IN
  CASE r.alg \in {"Dct1Naive","Dst1Naive","Type2And3Naive","Type4Naive","Dct5Naive","Dst5Naive",
                  "Dct6And7Naive","Dst6And7Naive","Dct8Naive","Dst8Naive"} -> n
    [] r.alg = "Type2And3Butterfly" -> 0
    [] r.alg \in {"Dct1ConvertToFft","Dst1ConvertToFft","Dst6And7ConvertToFft",
                  "Type2And3ConvertToFft","Type4ConvertToFftOdd"} -> 2 * (r.fft + FftScratch(r.fft))
    [] r.alg = "Type2And3SplitRadix" ->
         n + (LET h == Scratch(s, r.inner[1]) q == Scratch(s, r.inner[2])
                  ex == IF h > q THEN h ELSE q IN IF ex <= n THEN 0 ELSE ex)
    [] r.alg = "Type4ConvertToType3Even" ->
         n + (LET h == Scratch(s, r.inner[1]) IN IF h <= n THEN 0 ELSE h)
    [] r.alg = "MdctViaDct4" -> n + Scratch(s, r.inner[1])

(* how many cells the object hands to its inner transforms *)
HandsDown(s, o, i) ==
  LET r == s[o] n == r.len mine == Scratch(s, o) IN
  CASE r.alg = "Type2And3SplitRadix" -> IF mine > n THEN mine - n ELSE n
    [] r.alg = "Type4ConvertToType3Even" -> IF mine > n THEN mine - n ELSE n
    [] r.alg = "MdctViaDct4" -> mine - n

RECURSIVE Work(_, _)
Work(s, o) ==
  LET r == s[o] n == r.len IN
  CASE r.alg \in {"Dct1Naive","Dst1Naive","Type2And3Naive","Type4Naive","Dct5Naive","Dst5Naive",
                  "Dct6And7Naive","Dst6And7Naive","Dct8Naive","Dst8Naive"} -> 2 * n * n + 2
    [] r.alg = "Type2And3Butterfly" -> 10 * n
    [] r.alg \in {"Dct1ConvertToFft","Dst1ConvertToFft","Dst6And7ConvertToFft",
                  "Type2And3ConvertToFft","Type4ConvertToFftOdd"} -> FftWork(r.fft) + 12 * r.fft
    [] r.alg = "Type2And3SplitRadix" -> Work(s, r.inner[1]) + 2 * Work(s, r.inner[2]) + 8 * n
    [] r.alg = "Type4ConvertToType3Even" -> 2 * Work(s, r.inner[1]) + 8 * n
    [] r.alg = "MdctViaDct4" -> Work(s, r.inner[1]) + 8 * n

(***************************************************************************)
(* Memory, in cells: the tables an object brings along.  The table of the    *)
(* FFT inside it is counted with the object, without regard to sharing.      *)
(***************************************************************************)
FftTable(m) == 14 * m
Table(s, o) ==
  LET r == s[o] n == r.len IN
  CASE r.alg \in {"Dct1Naive","Dst1Naive","Dct5Naive","Dst5Naive","Dct6And7Naive","Dst6And7Naive"} -> 2 * n + 2
    [] r.alg \in {"Type2And3Naive","Dct8Naive","Dst8Naive"} -> 4 * n + 2
    [] r.alg = "Type4Naive" -> 8 * n
    [] r.alg = "Type2And3Butterfly" -> n
    [] r.alg \in {"Dct1ConvertToFft","Dst1ConvertToFft","Dst6And7ConvertToFft","Type4ConvertToFftOdd"} -> FftTable(r.fft)
    [] r.alg = "Type2And3ConvertToFft" -> 2 * n + FftTable(r.fft)
    [] r.alg = "Type2And3SplitRadix" -> n \div 2
    [] r.alg = "Type4ConvertToType3Even" -> n
    [] r.alg = "MdctViaDct4" -> 2 * n

RECURSIVE Closure(_)
Closure(S) == LET T == S \cup UNION {ToSet(store[o].inner) : o \in S} IN IF T = S THEN S ELSE Closure(T)
CellsOf(S) == MapThenSumSet(LAMBDA o : Table(store, o), Closure(S))

FastFamilies == {"dct1","dst1","t23","t4","s67"}

(***************************************************************************)
(* Transitions.  cache and insts are the abstract variables of Session,     *)
(* maintained as a projection of the implementation's state: a key counts   *)
(* as cached once it has been asked for from outside.                       *)
(***************************************************************************)
Project(ic, ask) == [p \in DOMAIN ic |-> [k \in ask[p] |-> ic[p][k]]]
Hist(hd) == [h \in DOMAIN hd |->
               IF hd[h].refused THEN Refused
               ELSE [Instance(hd[h].p, hd[h].key[1], hd[h].key[2], hd[h].win, hd[h].obj) EXCEPT !.live = hd[h].live]]
Projected == /\ cache' = Project(icache', asked')
             /\ insts' = Hist(handed')

ImplInit == /\ store = <<>> /\ icache = <<>> /\ asked = <<>> /\ handed = <<>>
            /\ cache = <<>> /\ insts = <<>>

INew(p) == /\ Unused(p)
           /\ icache' = (p :> <<>>) @@ icache
           /\ asked' = (p :> {}) @@ asked
           /\ UNCHANGED <<store, handed>>
IDrop(p) == /\ p \in DOMAIN icache
            /\ icache' = [q \in DOMAIN icache \ {p} |-> icache[q]]
            /\ asked' = [q \in DOMAIN asked \ {p} |-> asked[q]]
            /\ UNCHANGED <<store, handed>>

Out(p, key, w, o) == [live |-> TRUE, refused |-> FALSE, p |-> p, key |-> key, win |-> w, obj |-> o]
OutRefused == [live |-> FALSE, refused |-> TRUE, p |-> 0, key |-> <<"", 0>>, win |-> 0, obj |-> 0]

IPlan(p, op, n) ==
  /\ p \in DOMAIN icache /\ ValidPlan(op, n) /\ Len(handed) < MaxInsts
  /\ LET key == Key(op, n)
         st  == With([s |-> store, c |-> icache[p]], Family(op), n)
     IN  /\ store' = st.s
         /\ icache' = [icache EXCEPT ![p] = st.c]
         /\ asked' = [asked EXCEPT ![p] = @ \cup {key}]
         /\ handed' = Append(handed, Out(p, key, 0, st.c[key]))

(* the constructor panics before anything is cached *)
IPlanRefused(p, op, n) ==
  /\ p \in DOMAIN icache /\ ~ValidPlan(op, n) /\ Len(handed) < MaxInsts
  /\ handed' = Append(handed, OutRefused)
  /\ UNCHANGED <<store, icache, asked>>

(* the inner DCT4 is planned before the window is asked for, and stays in   *)
(* the cache when the MDCT is refused                                      *)
IPlanMdct(p, n, w, wl) ==
  /\ p \in DOMAIN icache /\ Len(handed) < MaxInsts
  /\ LET st == WithT4([s |-> store, c |-> icache[p]], n)
         good == n % 2 = 0 /\ wl = 2*n
         st2 == Add(st, Obj("MdctViaDct4", n, <<st.c[<<"t4", n>>]>>, 0))
     IN  /\ icache' = [icache EXCEPT ![p] = st.c]
         /\ store' = IF good THEN st2.s ELSE st.s
         /\ handed' = Append(handed, IF good THEN Out(p, <<"mdct", n>>, w, Len(st2.s)) ELSE OutRefused)
         /\ UNCHANGED asked

(* an object that neither a cache nor the program holds is gone, but its    *)
(* number is not used again                                                 *)
ILetGo(h) ==
  /\ h \in DOMAIN handed /\ handed[h].live
  /\ handed' = [handed EXCEPT ![h].live = FALSE]
  /\ UNCHANGED <<store, icache, asked>>

ImplNext ==
  /\ \/ \E p \in PlannerIds : INew(p) \/ IDrop(p)
     \/ \E p \in PlannerIds, n \in Lens, op \in UsedOps : IPlan(p, op, n) \/ IPlanRefused(p, op, n)
     \/ \E p \in PlannerIds, n \in Lens, w \in 1..2, d \in {0, 1} : IPlanMdct(p, n, w, 2*n - d)
     \/ LettingGo /\ \E h \in DOMAIN handed : ILetGo(h)
  /\ Projected
ImplSpec == ImplInit /\ [][ImplNext]_allVars

(***************************************************************************)
(* The steps of the implementation are steps of Session.                    *)
(***************************************************************************)
SessionNext ==
  \/ \E p \in PlannerIds : NewPlanner(p) \/ DropPlanner(p)
  \/ \E p \in PlannerIds, n \in Lens, op \in UsedOps :
        \/ \E o \in 1..Len(store') : Plan(p, op, n, o)
        \/ PlanRefused(p, op, n)
  \/ \E p \in PlannerIds, n \in Lens, w \in 1..2, d \in {0, 1} :
        \/ \E o \in 1..Len(store') : PlanMdct(p, n, w, 2*n - d, o)
        \/ PlanMdctRefused(p, n, 2*n - d)
  \/ \E h \in DOMAIN insts : LetGo(h)
Refines == [][SessionNext]_sessionVars

(***************************************************************************)
(* Invariants of the object store                                          *)
(***************************************************************************)
InnerLen(s, o, i) == s[s[o].inner[i]].len
CtorRespected ==
  \A o \in DOMAIN store : LET r == store[o] IN
    CASE r.alg = "Type2And3SplitRadix" ->
           /\ ValidCtor(r.alg, InnerLen(store, o, 1), InnerLen(store, o, 2), "fwd")
           /\ r.len = CtorLen(r.alg, InnerLen(store, o, 1))
      [] r.alg = "Type4ConvertToType3Even" -> r.len = CtorLen(r.alg, InnerLen(store, o, 1))
      [] r.alg = "MdctViaDct4" -> /\ ValidCtor(r.alg, InnerLen(store, o, 1), 2 * r.len, "fwd")
                                  /\ r.len = InnerLen(store, o, 1)
      [] r.alg \in FftKinds -> ValidCtor(r.alg, r.fft, 0, "fwd") /\ r.len = CtorLen(r.alg, r.fft)
      [] OTHER -> ValidCtor(r.alg, r.len, 0, "fwd")
ScratchSuffices ==
  \A o \in DOMAIN store : \A i \in DOMAIN store[o].inner :
     Scratch(store, store[o].inner[i]) <= HandsDown(store, o, i)
KeysAnswered ==      \* a cached object has the length of its key
  \A p \in DOMAIN icache : \A k \in DOMAIN icache[p] : store[icache[p][k]].len = k[2]
CostBounded ==
  \A p \in DOMAIN icache : \A k \in DOMAIN icache[p] :
     k[1] \in FastFamilies => /\ Work(store, icache[p][k]) <= MaxOps(IF k[1] \in {"dct1","dst1","s67"} THEN "dct1" ELSE "dct2", k[2])
                              /\ Scratch(store, icache[p][k]) <= MaxScratch(k[2])
KeptBounded ==       \* C20
  \A p \in DOMAIN icache : \A k \in DOMAIN icache[p] : CellsOf({icache[p][k]}) <= 32 + 40 * k[2]
NoCycle ==           \* inner objects are older: nothing keeps itself alive
  \A o \in DOMAIN store : \A i \in DOMAIN store[o].inner : store[o].inner[i] < o
NothingShared ==     \* planners share nothing, not even inner objects
  \A p, q \in DOMAIN icache : p # q =>
     {icache[p][k] : k \in DOMAIN icache[p]} \cap {icache[q][k] : k \in DOMAIN icache[q]} = {}
OneKeyPerObject ==
  \A p \in DOMAIN icache : \A j, k \in DOMAIN icache[p] : icache[p][j] = icache[p][k] => j = k

(***************************************************************************)
(* One planner asked for every kind at one length after the other: covers   *)
(* large lengths without a history.                                        *)
(***************************************************************************)
SweepInit == \E n \in Lens :
               LET fams == IF n = 1 THEN <<"t23","t4","dst1","s67","c67","dct5","dst5","dct8","dst8">>
                           ELSE <<"t23","t4","dct1","dst1","s67","c67","dct5","dst5","dct8","dst8">>
                   st == FoldLeft(LAMBDA acc, f : With(acc, f, n), [s |-> <<>>, c |-> <<>>], fams)
               IN  /\ store = st.s /\ icache = (1 :> st.c) /\ asked = (1 :> {}) /\ handed = <<>>
                   /\ cache = (1 :> <<>>) /\ insts = <<>>
SweepSpec == SweepInit /\ [][FALSE]_allVars
=============================================================================
