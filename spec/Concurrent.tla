----------------------------- MODULE Concurrent -----------------------------
(***************************************************************************)
(* Calls in progress at the same time on one shared instance.              *)
(*                                                                         *)
(* A call is Quanta steps long; it alternates between writing scratch and   *)
(* folding what it finds in scratch into its signal buffer.  The instance   *)
(* itself holds only tables that no step writes.  What the property hinges  *)
(* on is whose scratch a call works in: with Sharing = "private" every call *)
(* has its own (the caller's slice, or a vector the call allocates), with   *)
(* Sharing = "instance" the calls would work in storage of the instance     *)
(* (a cached buffer, a lazily filled table): TLC then refutes Undisturbed,  *)
(* which is run as a negative control.                                      *)
(*                                                                         *)
(* The behaviours of the private model are the schedules that are replayed  *)
(* against the real code: every interleaving with at most MaxSlices slices, *)
(* printed when the last call returns.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Threads,      \* how many callers
          Quanta,       \* steps of one call
          Sharing,      \* "private" or "instance"
          MaxSlices,    \* bound on the slices of a schedule
          Emit          \* print the schedules

VARIABLES pc,           \* thread -> steps done
          buf,          \* thread -> what its signal buffer holds: the values folded in so far
          scratch,      \* place -> value
          sched         \* history: <<thread, steps>> slices

vars == <<pc, buf, scratch, sched>>
T == 1..Threads
Place(t) == IF Sharing = "private" THEN t ELSE 0
Junk == <<0, 0>>

Init == /\ pc = [t \in T |-> 0]
        /\ buf = [t \in T |-> <<>>]
        /\ scratch = [q \in 0..Threads |-> Junk]
        /\ sched = <<>>

Note(t) == IF sched # <<>> /\ sched[Len(sched)][1] = t
           THEN sched' = [sched EXCEPT ![Len(sched)][2] = @ + 1]
           ELSE /\ Len(sched) < MaxSlices
                /\ sched' = Append(sched, <<t, 1>>)

WriteScratch(t) == /\ pc[t] < Quanta /\ pc[t] % 2 = 0
                   /\ scratch' = [scratch EXCEPT ![Place(t)] = <<t, pc[t]>>]
                   /\ pc' = [pc EXCEPT ![t] = @ + 1]
                   /\ Note(t)
                   /\ UNCHANGED buf
FoldScratch(t)  == /\ pc[t] < Quanta /\ pc[t] % 2 = 1
                   /\ buf' = [buf EXCEPT ![t] = Append(@, scratch[Place(t)])]
                   /\ pc' = [pc EXCEPT ![t] = @ + 1]
                   /\ Note(t)
                   /\ UNCHANGED scratch

Done == \A t \in T : pc[t] = Quanta
Next == \E t \in T : WriteScratch(t) \/ FoldScratch(t)
Spec == Init /\ [][Next]_vars

(* what the call would have folded in, had it run alone *)
Alone(t) == [q \in 1..(Quanta \div 2) |-> <<t, 2*(q-1)>>]

(* C13: every call returns what it returns alone *)
Undisturbed == \A t \in T : pc[t] = Quanta => buf[t] = Alone(t)
(* and at every moment *)
PrefixOfAlone == \A t \in T : IsPrefix(buf[t], Alone(t))

Out == IF Emit /\ Done THEN PrintT("SCHED " \o ToJson(<<Quanta, Threads, sched>>)) ELSE TRUE
=============================================================================
