----------------------------- MODULE TraceCalls -----------------------------
(***************************************************************************)
(* Validation of recorded calls in which no state is carried from one event *)
(* to the next: every event holds the call's complete input and output, or  *)
(* an integer projection of them.                                          *)
(*                                                                         *)
(*   fn, round, mdct, imdct, tdac   exact values in GF(p) (TraceExact)       *)
(*   col, mcol, icol   a floating-point impulse response, as intervals of    *)
(*                     phases: which integers ph are compatible with the     *)
(*                     observed coefficient cos(2 pi ph/M)                   *)
(*   win               a window: phase intervals, symmetry, power            *)
(*   calls             accepted and rejected calls (Contract)               *)
(*   ctor              accepted and rejected constructions                  *)
(*   acc               rounding errors, in the units of Bounds               *)
(*   scratch           results with differing scratch, as deviations from the *)
(*                     result with an exact-size zeroed scratch              *)
(*   alloc             heap requests during calls                           *)
(*   memo              (input, result) pairs seen in a history or under      *)
(*                     concurrency                                          *)
(*   mem               calls between inaccessible pages                     *)
(*   cost              arithmetic operations and scratch of one call         *)
(*   def               the definitions as the harness's reference reads them  *)
(***************************************************************************)
EXTENDS TraceExact, Bounds, Contract

Profile == IOEnv.BOUND           \* "tight" or "loose"

InIntervals(e, m, ph(_)) ==
  \A q \in 1..Len(e.lo) : LET c == Canon(ph(q), m) IN e.lo[q] <= c /\ c <= e.hi[q]

ColEv(e) == /\ e.len = e.n /\ e.i \in 0..(e.n-1)
          /\ Len(e.ks) = Len(e.lo) /\ Len(e.ks) = Len(e.hi)
          /\ InIntervals(e, Modulus(e.op, e.n), LAMBDA q : Phase(e.op, e.n, e.ks[q], e.i))

MColEv(e) == /\ e.len = e.n /\ Len(e.lo) = e.n
           /\ InIntervals(e, MdctModulus(e.n), LAMBDA q : MdctPhase(e.n, q-1, e.i))
IColEv(e) == /\ e.len = e.n /\ Len(e.lo) = 2 * e.n
           /\ InIntervals(e, MdctModulus(e.n), LAMBDA q : MdctPhase(e.n, e.i, q-1))

(***************************************************************************)
(* Windows of size L.  mp3: sin(pi (j+1/2)/L).  vorbis: sin(pi/2 *          *)
(* sin^2(pi (j+1/2)/L)), of which the harness inverts the outer sine, so the *)
(* phase is that of cos(2 pi (2j+1)/(2L)).  The others are constant 1.      *)
(***************************************************************************)
WinBases == {"mp3", "vorbis", "one", "invertible"}
(* winl is a large one, of which only the cells e.at are listed.            *)
WinBody(e, cell(_)) ==
          /\ e.base \in WinBases
          /\ e.count = e.size /\ Len(e.lo) = Len(e.hi)
          /\ LET L == e.size IN
             CASE e.base = "mp3"    -> InIntervals(e, 16*L, LAMBDA q : 4*(2*cell(q)-1) + 12*L)
               [] e.base = "vorbis" -> InIntervals(e, 2*L, LAMBDA q : 2*cell(q)-1)
               [] OTHER             -> InIntervals(e, 4, LAMBDA q : 0)
          /\ e.acc <= 64 /\ e.sym <= 64 /\ e.pc <= 64
Win(e) == Len(e.lo) = e.size /\ WinBody(e, LAMBDA q : q)
WinL(e) == /\ Len(e.at) = Len(e.lo) /\ Len(e.at) > 8
           /\ {0, e.size \div 2, e.size - 1} \subseteq {e.at[q] : q \in 1..Len(e.at)}
           /\ WinBody(e, LAMBDA q : e.at[q] + 1)

(* every result of the list within the bound for its kind *)
AccOne(r, n) ==
  IF Profile = "tight"
  THEN LET f == IsFast(r.op) /\ r.direct = 0 IN
       r.rms <= RmsTight(f, n) /\ r.peak <= PeakTight(f, n) /\ r.at <= PeakTight(f, n)
  ELSE r.max <= Loose(n) /\ r.at <= Loose(n)
Acc(e) == \A q \in 1..Len(e.r) : AccOne(e.r[q], e.n)

(* accepted exactly when well-sized; a rejected call leaves the signal buffers *)
SignalCase(e, c) == LET ok == ValidSignalCall(e.n, e.adv, c.b, c.s) IN
                    /\ c.ok = (IF ok THEN 1 ELSE 0)
                    /\ ~ok => c.mod = 0
MdctCase(e, c) == LET ok == ValidMdctCall(e.n, e.adv, c.a, c.b, c.c, c.s) IN
                  /\ c.ok = (IF ok THEN 1 ELSE 0)
                  /\ ~ok => c.mod = 0
                  /\ c.inmod = 0
CallsEv(e) == /\ e.len = e.n /\ e.adv >= 0
              /\ IF e.kind = "signal" THEN \A q \in 1..Len(e.cases) : SignalCase(e, e.cases[q])
                                       ELSE \A q \in 1..Len(e.cases) : MdctCase(e, e.cases[q])

Ctor(e) == \/ Empty(e.kind, e.x)
           \/ /\ e.ok = (IF ValidCtor(e.kind, e.x, e.y, e.dir) THEN 1 ELSE 0)
              /\ e.ok = 1 => e.len = CtorLen(e.kind, e.x)

(* C08: the result does not depend on scratch *)
ScratchEv(e) == /\ e.adv >= 0 /\ Len(e.runs) > 0
                /\ \A q \in 1..Len(e.runs) : /\ e.runs[q].s = -1 \/ e.runs[q].s >= e.adv
                                             /\ e.runs[q].dev <= Loose(e.n)

(* C17: nothing with the caller's scratch, at most the advertised one without *)
AllocEv(e) == e.calls > 0 /\ e.with = 0 /\ e.conv <= e.adv * e.size

(* C13: the result is a function of the input; seen holds <<input, r1, r2, count>> *)
MemoEv(e) == LET pairs == {<<e.seen[q][1], e.seen[q][2], e.seen[q][3]>> : q \in 1..Len(e.seen)}
             IN  /\ Len(e.seen) > 0
                 /\ Cardinality(pairs) = Cardinality({x[1] : x \in pairs})

(* C18: no access outside the slices *)
MemEv(e) == e.fault = 0 /\ e.intact = 1

(* C16 *)
CostEv(e) == e.ops <= MaxOps(e.op, e.n) /\ e.scratch <= MaxScratch(e.n)

(* not a run of the code: the table of phases the harness's reference uses *)
DefEv(e) ==
  LET n == e.n  nin == IF e.op = "mdct" THEN 2*n ELSE n  nout == IF e.op = "imdct" THEN 2*n ELSE n
      m == IF e.op \in {"mdct","imdct"} THEN MdctModulus(n) ELSE Modulus(e.op, n)
      ph(k, i) == CASE e.op = "mdct" -> MdctPhase(n, k, i)
                    [] e.op = "imdct" -> MdctPhase(n, i, k)
                    [] OTHER -> Phase(e.op, n, k, i)
      wt(i) == IF e.op \in {"mdct","imdct"} THEN 2 ELSE Weight(e.op, n, i)
  IN /\ e.m = m /\ Len(e.ph) = nin * nout /\ Len(e.w) = nin
     /\ \A k \in 0..(nout-1), i \in 0..(nin-1) : Canon(e.ph[k*nin + i + 1], m) = Canon(ph(k, i), m)
     /\ \A i \in 0..(nin-1) : e.w[i+1] = wt(i)

Valid(e) == CASE e.e = "def" -> DefEv(e)
              [] e.e = "col" -> ColEv(e)
              [] e.e = "mcol" -> MColEv(e)
              [] e.e = "icol" -> IColEv(e)
              [] e.e = "win" -> Win(e)
              [] e.e = "winl" -> WinL(e)
              [] e.e = "calls" -> CallsEv(e)
              [] e.e = "ctor" -> Ctor(e)
              [] e.e = "acc" -> Acc(e)
              [] e.e = "scratch" -> ScratchEv(e)
              [] e.e = "alloc" -> AllocEv(e)
              [] e.e = "memo" -> MemoEv(e)
              [] e.e = "mem" -> MemEv(e)
              [] e.e = "cost" -> CostEv(e)
              [] OTHER -> Accept(e)

CallsNext == /\ l < LaneEnd(lane)
             /\ IF Valid(Trace[l]) THEN TRUE ELSE Reject
             /\ l' = l + 1
             /\ UNCHANGED lane
CallsSpec == Init /\ [][CallsNext]_vars
=============================================================================
