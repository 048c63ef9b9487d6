----------------------------- MODULE TraceExact -----------------------------
(***************************************************************************)
(* Validates runs of the real code over the number type GF(p): for each     *)
(* recorded call the specification recomputes the exact result from Defs.   *)
(***************************************************************************)
EXTENDS Field, TraceBase

VARIABLES lane, l
vars == <<lane, l>>

FieldOK(e) == e.p < 46341 /\ IsPrime(e.p) /\ IsGenerator(e.g, e.p)

(* one call of a DCT or DST *)
Fn(e) == /\ Len(e.x) = e.n
         /\ FieldOK(e)
         /\ e.len = e.n
         /\ e.y = Transform(e.op, e.x, e.p, e.g)

(* forward and inverse partner, both through the library *)
Round(e) == /\ FieldOK(e)
            /\ e.inv = Partner(e.op)
            /\ e.y = ScaleSeq((Scale4(e.op, e.n) * Inv(4, e.p)) % e.p, e.x, e.p)

(* MDCT: output overwritten, inputs untouched *)
MdctCall(e) == /\ FieldOK(e)
               /\ e.len = e.n
               /\ e.out = Mdct(e.n, e.w, e.a, e.b, e.p, e.g)
               /\ e.a2 = e.a /\ e.b2 = e.b

(* IMDCT: adds to what was there, input untouched; reps accumulating calls *)
ImdctCall(e) == LET add == ScaleSeq(e.reps % e.p, Imdct(e.n, e.w, e.x, e.p, e.g), e.p) IN
                /\ FieldOK(e)
                /\ e.len = e.n
                /\ e.oa \o e.ob = AddSeq(e.oa0 \o e.ob0, add, e.p)
                /\ e.x2 = e.x

(* overlapped analysis and synthesis; scale s2/s1 brings the signal back on *)
(* the fully overlapped samples                                             *)
Tdac(e) == LET sc == (e.s2 * Inv(e.s1, e.p)) % e.p IN
           /\ FieldOK(e)
           /\ \A j \in 1..e.n : (e.w[j]*e.w[j] + e.w[j+e.n]*e.w[j+e.n]) % e.p = e.pc   \* power-complementary
           /\ \A j \in 1..(2*e.n) : e.w[j] = e.w[2*e.n+1-j]                            \* symmetric
           /\ (sc * e.n * e.pc) % e.p = 2 % e.p
           /\ \A j \in (e.n+1)..(e.n*e.segs) : (sc * e.rec[j]) % e.p = e.sig[j]

Accept(e) == CASE e.e = "fn" -> Fn(e)
               [] e.e = "round" -> Round(e)
               [] e.e = "mdct" -> MdctCall(e)
               [] e.e = "imdct" -> ImdctCall(e)
               [] e.e = "tdac" -> Tdac(e)
               [] OTHER -> FALSE         \* a panic, or anything the specification does not know

Init == lane \in 1..Lanes /\ l = LaneStart(lane)
Reject == PrintT(<<"REJECT", l>>)
Next == /\ l < LaneEnd(lane)
        /\ IF Accept(Trace[l]) THEN TRUE ELSE Reject
        /\ l' = l + 1
        /\ UNCHANGED lane
Spec == Init /\ [][Next]_vars
=============================================================================
