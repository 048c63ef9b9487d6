---------------------------- MODULE TraceStages ----------------------------
(***************************************************************************)
(* Does the code proceed by the stages of Stages?  Every event is a call of  *)
(* an algorithm over inner transforms that recorded what they were given and *)
(* what they returned, over GF(p).  Compared are: what is handed down, and   *)
(* the output made of what came back.                                       *)
(*                                                                         *)
(* This ties Algorithms to the code, and is no property: an algorithm may    *)
(* proceed otherwise and still compute its definition.  A call that does is  *)
(* reported as OTHERWISE and counted in the evidence, never as a violation.  *)
(***************************************************************************)
EXTENDS Stages, TraceBase

VARIABLES lane, l
vars == <<lane, l>>

Arr(q) == [k \in 0..(Len(q)-1) |-> q[k+1]]
Job(e) == [alg |-> e.alg, op |-> e.op, n |-> e.n, w |-> 1]
Context(e) == LET m == Roots(e.alg, e.n) IN [p |-> e.p, g |-> e.g, m |-> m, c |-> TLCEval(CosTab(e.p, e.g, m))]

ByFft(e, j, c) ==
  /\ Len(e.in) = 1 /\ e.in[1].op = "fft"
  /\ LET b == Arr(e.x) IN
     /\ Arr(e.in[1].x) = Flat(TLCEval(FillFft(j, c, b)))
     /\ Arr(e.y) = ReadFft(j, c, Complex(Arr(e.in[1].y), InnerFft(j)))

(* the parts may be transformed in any order *)
ByParts(e, j, c) ==
  LET b == Entry(j, c, Arr(e.x))
      ps == Parts(j)
      down == CASE j.alg = "t4even" -> T4Pre(j, c, b)
                [] j.op \in {"dct2","dst2"} -> SrPre2(j, c, b)
                [] OTHER -> SrPre3(j, c, b)
      fits(r, q) == e.in[r].op = ps[q][1] /\ Arr(e.in[r].x) = Slice(down, ps[q][2], ps[q][3])
  IN /\ Len(e.in) = Len(ps)
     /\ \E f \in [1..Len(ps) -> 1..Len(ps)] :
          /\ {f[q] : q \in 1..Len(ps)} = 1..Len(ps)
          /\ \A q \in 1..Len(ps) : fits(f[q], q)
          /\ LET up == [k \in 0..(j.n - 1) |->
                          LET q == CHOOSE q \in 1..Len(ps) : ps[q][2] <= k /\ k < ps[q][2] + ps[q][3]
                          IN  e.in[f[q]].y[k - ps[q][2] + 1]]
             IN Arr(e.y) = Exit(j, c, CASE j.alg = "t4even" -> T4Post(j, c, up)
                                        [] j.op \in {"dct2","dst2"} -> SrPost2(j, c, up)
                                        [] OTHER -> SrPost3(j, c, up))

ByFolding(e, j, c) ==
  /\ Len(e.in) = 1 /\ e.in[1].op = "dct4"
  /\ IF j.op = "mdct"
     THEN Arr(e.in[1].x) = Fold(j, c, Arr(e.x), Arr(e.w)) /\ e.y = e.in[1].y
     ELSE e.in[1].x = e.x /\ Arr(e.y) = Unfold(j, c, Arr(e.in[1].y), Arr(e.o), Arr(e.w))

AsModelled(e) == LET j == Job(e) c == Context(e) IN
                 CASE e.alg = "mdct" -> ByFolding(e, j, c)
                   [] e.alg \in {"split","t4even"} -> ByParts(e, j, c)
                   [] OTHER -> ByFft(e, j, c)

Init == lane \in 1..Lanes /\ l = LaneStart(lane)
Next == /\ l < LaneEnd(lane)
        /\ IF AsModelled(Trace[l]) THEN TRUE ELSE PrintT(<<"OTHERWISE", l>>)
        /\ l' = l + 1
        /\ UNCHANGED lane
Spec == Init /\ [][Next]_vars
=============================================================================
