----------------------------- MODULE Algorithms -----------------------------
(***************************************************************************)
(* The fast algorithms, as the library builds them: how a transform of      *)
(* Defs is reduced to an FFT or to smaller transforms, in which cells of the *)
(* buffer and of the caller's scratch the intermediate values live, and what *)
(* is handed to the inner transform as its scratch.                         *)
(*                                                                         *)
(* A state machine: one call, executed in stages (pre, inner..., post).     *)
(* Values are elements of GF(p), in which the arithmetic is exact; Garbage   *)
(* is the content of scratch nobody has written, and of whatever an inner    *)
(* transform was given to scribble on.  Anything computed from Garbage is    *)
(* Garbage.  Arrays are functions on 0..len-1, so that an index out of range *)
(* is an error.  Inner transforms are assumed to keep the contract that is   *)
(* asserted of the outer ones: they compute their definition, need some      *)
(* amount of scratch (which is a parameter of the model), and spoil it.     *)
(*                                                                         *)
(* Every stage is linear, so a call is right for all inputs if it is right   *)
(* for the unit vectors; Jobs ranges over these.                            *)
(***************************************************************************)
EXTENDS Stages

CONSTANTS MaxN,      \* largest transform length
          Thirst     \* how much scratch inner transforms ask for: indices into Wants

VARIABLES job,   \* the call: [alg, op, n, i, w]
          pc,    \* stage about to be executed
          a,     \* the signal buffer (MDCT: the inputs)
          o,     \* MDCT: the output, otherwise empty
          s      \* the caller's scratch
vars == <<job, pc, a, o, s>>

Algs == {"dct1fft","dst1fft","t23fft","split","butterfly","t4even","t4odd","s67fft","mdct"}
OpsOf(alg) == CASE alg = "dct1fft" -> {"dct1"}
                [] alg = "dst1fft" -> {"dst1"}
                [] alg \in {"t23fft","split","butterfly"} -> {"dct2","dct3","dst2","dst3"}
                [] alg \in {"t4even","t4odd"} -> {"dct4","dst4"}
                [] alg = "s67fft" -> {"dst6","dst7"}
                [] alg = "mdct" -> {"mdct","imdct"}
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k-1)
LensOf(alg) == CASE alg = "dct1fft" -> 2..MaxN
                 [] alg \in {"dst1fft","t23fft","s67fft"} -> 1..MaxN
                 [] alg = "split" -> {Pow2(k) : k \in 2..6} \cap 1..MaxN
                 [] alg = "butterfly" -> {2,3,4,8,16} \cap 1..MaxN
                 [] alg \in {"t4even","mdct"} -> {n \in 2..MaxN : n % 2 = 0}
                 [] alg = "t4odd" -> {n \in 1..MaxN : n % 2 = 1}

RECURSIVE PrimeFrom(_, _)
PrimeFrom(c, m) == IF IsPrime(c) THEN c ELSE PrimeFrom(c + m, m)
RECURSIVE GenFrom(_, _)
GenFrom(g, p) == IF IsGenerator(g, p) THEN g ELSE GenFrom(g + 1, p)
Moduli == UNION {{Roots(alg, n) : n \in LensOf(alg)} : alg \in Algs}
(* prime, generator and cosine table for each modulus, computed once *)
Ctx == TLCEval([m \in Moduli |->
         LET p == PrimeFrom(m * (1 + 600 \div m) + 1, m)
             g == GenFrom(2, p)
         IN [p |-> p, g |-> g, m |-> m, c |-> TLCEval(CosTab(p, g, m))]])
Cx(j) == Ctx[Roots(j.alg, j.n)]

Inputs(op, n) == 0..(IF op = "mdct" THEN 2*n-1 ELSE n-1)
JobsOf(alg, n) == UNION {{[alg |-> alg, op |-> op, n |-> n, i |-> i, w |-> w] :
                            i \in Inputs(op, n), w \in IF alg = "butterfly" THEN {1} ELSE Thirst} :
                         op \in OpsOf(alg)}
Jobs == UNION {UNION {JobsOf(alg, n) : n \in LensOf(alg)} : alg \in Algs}

FftPre(j, c) ==
  /\ s' = Write(s, Flat(TLCEval(FillFft(j, c, a))))
  /\ UNCHANGED <<a, o>>
(* the FFT is given the cells behind its buffer, which must be enough for it *)
FftRun(j, c) ==
  LET len == InnerFft(j)
      rest == Slice(s, 2*len, Advertised(j) - 2*len)
  IN /\ Assert(Dim(rest) \div 2 >= InnerWant(j), "scratch of the FFT")
     /\ s' = Write(Write(s, Flat(Fft(c, Complex(s, len)))), At(Spoiled(rest), 2*len))
     /\ UNCHANGED <<a, o>>
FftPost(j, c) == /\ a' = Write(a, TLCEval(ReadFft(j, c, Complex(s, InnerFft(j)))))
                 /\ UNCHANGED <<s, o>>

DivPre(j, c) ==
  LET b == Entry(j, c, a) IN
  /\ s' = Write(s, CASE j.alg = "t4even" -> T4Pre(j, c, b)
                     [] j.op \in {"dct2","dst2"} -> SrPre2(j, c, b)
                     [] OTHER -> SrPre3(j, c, b))
  /\ a' = b /\ UNCHANGED o
DivInner(j, c, q) ==
  LET part == Parts(j)[q]
      extra == Advertised(j) - j.n
      new == Write(s, At(Inner(c, part[1], Slice(s, part[2], part[3])), part[2]))
  IN IF extra > 0
     THEN /\ Assert(extra >= InnerWant(j), "scratch of an inner transform")
          /\ s' = Write(new, At(Spoiled(Slice(s, j.n, extra)), j.n))
          /\ UNCHANGED <<a, o>>
     ELSE /\ Assert(j.n >= InnerWant(j), "scratch of an inner transform")
          /\ s' = new /\ a' = Spoiled(a) /\ UNCHANGED o
DivPost(j, c) ==
  /\ a' = Exit(j, c, Write(a, CASE j.alg = "t4even" -> T4Post(j, c, s)
                                [] j.op \in {"dct2","dst2"} -> SrPost2(j, c, s)
                                [] OTHER -> SrPost3(j, c, s)))
  /\ UNCHANGED <<s, o>>

Window(c, n) == [k \in 0..(2*n-1) |-> (3 + 5*k + 7*k*k) % c.p]     \* any, without symmetry
Before(c, n) == [k \in 0..(2*n-1) |-> (11 + 17*k) % c.p]           \* what the output holds
MdctPre(j, c) == IF j.op = "mdct"
                 THEN o' = Write(o, Fold(j, c, a, Window(c, j.n))) /\ UNCHANGED <<a, s>>
                 ELSE s' = Write(s, a) /\ UNCHANGED <<a, o>>
(* the forward call hands all of its scratch down, the inverse the rest *)
MdctInner(j, c) ==
  IF j.op = "mdct"
  THEN /\ Assert(Dim(s) >= InnerWant(j), "scratch of the type 4")
       /\ o' = Inner(c, "dct4", o) /\ s' = Write(s, Spoiled(Slice(s, 0, Advertised(j)))) /\ UNCHANGED a
  ELSE /\ Assert(Advertised(j) - j.n >= InnerWant(j), "scratch of the type 4")
       /\ s' = Write(Write(s, Inner(c, "dct4", Slice(s, 0, j.n))),
                     At(Spoiled(Slice(s, j.n, Advertised(j) - j.n)), j.n))
       /\ UNCHANGED <<a, o>>
MdctPost(j, c) == IF j.op = "mdct" THEN UNCHANGED <<a, o, s>>
                  ELSE o' = Write(o, Unfold(j, c, s, o, Window(c, j.n))) /\ UNCHANGED <<a, s>>

(***************************************************************************)
(* The machine.                                                             *)
(***************************************************************************)
Unit(n, i) == [k \in 0..(n-1) |-> IF k = i THEN 1 ELSE 0]
Init == /\ job \in Jobs
        /\ pc = "pre"
        /\ a = Unit(IF job.op = "mdct" THEN 2 * job.n ELSE job.n, job.i)
        /\ o = CASE job.op = "mdct" -> [k \in 0..(job.n-1) |-> Garbage]
                 [] job.op = "imdct" -> Before(Cx(job), job.n)
                 [] OTHER -> <<>>
        /\ s = [k \in 0..Advertised(job) |-> Garbage]      \* one cell more than advertised

Next ==
  LET j == job c == Cx(job) IN
  /\ pc # "done"
  /\ UNCHANGED job
  /\ CASE j.alg = "butterfly" ->
            a' = Write(a, Bfly(c, j.op, j.n, a)) /\ pc' = "done" /\ UNCHANGED <<o, s>>
       [] j.alg \in FftAlgs ->
            (CASE pc = "pre" -> FftPre(j, c) /\ pc' = "inner"
               [] pc = "inner" -> FftRun(j, c) /\ pc' = "post"
               [] pc = "post" -> FftPost(j, c) /\ pc' = "done")
       [] j.alg \in {"split","t4even"} ->
            (CASE pc = "pre" -> DivPre(j, c) /\ pc' = "inner"
               [] pc = "inner" -> DivInner(j, c, 1) /\ pc' = "inner2"
               [] pc = "inner2" -> DivInner(j, c, 2) /\ pc' = (IF j.alg = "split" THEN "inner3" ELSE "post")
               [] pc = "inner3" -> DivInner(j, c, 3) /\ pc' = "post"
               [] pc = "post" -> DivPost(j, c) /\ pc' = "done")
       [] j.alg = "mdct" ->
            (CASE pc = "pre" -> MdctPre(j, c) /\ pc' = "inner"
               [] pc = "inner" -> MdctInner(j, c) /\ pc' = "post"
               [] pc = "post" -> MdctPost(j, c) /\ pc' = "done")
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
(* The call computes the definition, from the signal alone.                 *)
(***************************************************************************)
ByDefinition(j, c) ==
  IF j.alg = "mdct"
  THEN LET n == j.n IN
       IF j.op = "mdct"
       THEN /\ o = [k \in 0..(n-1) |-> (Window(c, n)[j.i] * Cos(c, MdctPhase(n, k, j.i), 8*n)) % c.p]
            /\ a = Unit(2*n, j.i)                            \* inputs untouched
       ELSE /\ o = [k \in 0..(2*n-1) |->
                      (Before(c, n)[k] + Window(c, n)[k] * Cos(c, MdctPhase(n, j.i, k), 8*n)) % c.p]
            /\ a = Unit(n, j.i)
  ELSE a = Inner(c, j.op, Unit(j.n, j.i))
Correct == pc = "done" => ByDefinition(job, Cx(job))
(* surplus scratch is not touched *)
Surplus == s[Advertised(job)] = Garbage
Terminates == <>(pc = "done")
=============================================================================
