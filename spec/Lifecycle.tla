----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* Instances that come and go, and the calls made of them.                 *)
(*                                                                         *)
(* A slot holds an instance of one of several configurations (another      *)
(* window, another inner transform, another length) or nothing.  Making    *)
(* takes the address freed last, as an allocator does, so an instance is   *)
(* regularly made where one of another configuration lived; dropping gives  *)
(* the address back.  A call returns a value which, with Remembers =       *)
(* "nothing", is a function of the configuration and the input alone.      *)
(*                                                                         *)
(* What the property (C13) excludes is storage that outlives an instance    *)
(* or is shared between instances.  Three such storages are modelled and    *)
(* refuted, as negative controls and to show what the histories reach:      *)
(*   "address"  what was found out about an instance, kept by its address  *)
(*   "last"     the configuration prepared for by the last call            *)
(*   "first"    what the first instance ever made prepared for everybody   *)
(*   "input"    the result for the last input, kept by the input alone     *)
(*                                                                         *)
(* The behaviours of length MaxLen are the histories replayed against the   *)
(* real code, for families of configurations of the same or nearly the     *)
(* same size.  What a call returns alone is recorded first, in a process    *)
(* of its own for each configuration, and the recorded results have to be   *)
(* a function of configuration and input (TraceCalls, "memo").              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Slots, Cfgs, Inputs, MaxLen, Remembers, Emit

VARIABLES inst,         \* slot -> <<configuration, address>> or <<>>
          free,         \* stack of addresses
          kept,         \* key -> what is remembered (a configuration, or 0)
          seen,         \* <<configuration, input, result>> of the calls so far
          hist
vars == <<inst, free, kept, seen, hist>>
S == 1..Slots
C == 1..Cfgs
X == 1..Inputs

Init == /\ inst = [s \in S |-> <<>>]
        /\ free = [q \in 1..Slots |-> q]
        /\ kept = [q \in 0..(Slots + Inputs) |-> 0]
        /\ seen = {}
        /\ hist = <<>>

(* a canonical choice of names: slots, configurations and inputs are used in order *)
UsedSlots == {hist[q][2] : q \in {r \in 1..Len(hist) : hist[r][1] = "M"}}
UsedCfgs == {hist[q][3] : q \in {r \in 1..Len(hist) : hist[r][1] = "M"}}
UsedInputs == {hist[q][3] : q \in {r \in 1..Len(hist) : hist[r][1] = "C"}}
Fresh(used, v) == v \in used \/ v = Cardinality(used) + 1

Key(s, x) == CASE Remembers = "address" -> inst[s][2]
               [] Remembers \in {"last", "first"} -> 0
               [] Remembers = "input" -> Slots + x
               [] OTHER -> 0
(* the configuration whose result the call returns *)
Acts(s, x) == IF Remembers = "nothing" \/ kept[Key(s, x)] = 0 THEN inst[s][1] ELSE kept[Key(s, x)]

Make(s, c) == /\ inst[s] = <<>>
              /\ Fresh(UsedSlots, s) /\ Fresh(UsedCfgs, c)
              /\ inst' = [inst EXCEPT ![s] = <<c, Head(free)>>]
              /\ free' = Tail(free)
              /\ kept' = IF Remembers = "last" THEN [kept EXCEPT ![0] = c] ELSE kept
              /\ hist' = Append(hist, <<"M", s, c>>)
              /\ UNCHANGED seen
Call(s, x) == /\ inst[s] # <<>>
              /\ Fresh(UsedInputs, x)
              /\ seen' = seen \cup {<<inst[s][1], x, <<Acts(s, x), x>>>>}
              /\ kept' = IF Remembers = "nothing" THEN kept ELSE [kept EXCEPT ![Key(s, x)] = Acts(s, x)]
              /\ hist' = Append(hist, <<"C", s, x>>)
              /\ UNCHANGED <<inst, free>>
Drop(s) == /\ inst[s] # <<>>
           /\ inst' = [inst EXCEPT ![s] = <<>>]
           /\ free' = <<inst[s][2]>> \o free
           /\ hist' = Append(hist, <<"D", s, 0>>)
           /\ UNCHANGED <<kept, seen>>

Next == /\ Len(hist) < MaxLen
        /\ \E s \in S : \/ \E c \in C : Make(s, c)
                        \/ \E x \in X : Call(s, x)
                        \/ Drop(s)
Spec == Init /\ [][Next]_vars

(* C13: every call returns what it returns where nothing else ever happened *)
AsAlone == \A a \in seen : a[3] = <<a[1], a[2]>>
(* no two instances at one address, and none at a free one *)
Placed == /\ \A s, t \in S : s # t /\ inst[s] # <<>> /\ inst[t] # <<>> => inst[s][2] # inst[t][2]
          /\ \A s \in S : inst[s] # <<>> => inst[s][2] \notin ToSet(free)
          /\ Len(free) + Cardinality({s \in S : inst[s] # <<>>}) = Slots

Calls == Cardinality({q \in 1..Len(hist) : hist[q][1] = "C"})
(* histories worth replaying: they end in a call and contain another one, of another instance or after a drop *)
Worth == Len(hist) = MaxLen /\ hist[MaxLen][1] = "C" /\ Calls >= 2 /\ Cardinality(UsedCfgs) >= 2
Out == IF Emit /\ Worth THEN PrintT("LIFE " \o ToJson(hist)) ELSE TRUE
=============================================================================
