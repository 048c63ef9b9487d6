------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Trace validation scaffolding.  A trace is a sequence of JSON records,    *)
(* one per observed action of the implementation.  The trace is cut into    *)
(* Lanes contiguous pieces so that TLC's workers can validate in parallel;  *)
(* inside a piece the position l moves forward one event at a time.  An     *)
(* event the specification does not allow moves the piece on through the    *)
(* Rejected action, which prints the position; the driver counts the states *)
(* TLC found to make sure that every event was consumed.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils, Json

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)
N == Len(Trace)
Lanes == 32
LaneStart(c) == 1 + ((N * (c-1)) \div Lanes)
LaneEnd(c)   == 1 + ((N * c) \div Lanes)      \* exclusive
=============================================================================
