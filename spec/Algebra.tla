------------------------------ MODULE Algebra ------------------------------
(***************************************************************************)
(* What the definitions promise about each other, checked on the            *)
(* specification itself: if Defs had a wrong weight, phase or scale, the    *)
(* round trips, the overlap-add and the relations between kinds would fail. *)
(* The definitions are linear, so unit vectors suffice; GF(p) is exact.     *)
(*                                                                         *)
(* One state per (law, kind, length, unit vector).                          *)
(***************************************************************************)
EXTENDS Field

CONSTANTS MaxN
VARIABLE q
vars == <<q>>

Laws == {"undo", "tdac", "sine", "transpose"}
Lens(law, op) == CASE law = "tdac" -> {n \in 2..MaxN : n % 2 = 0}
                   [] OTHER -> MinLen(op)..MaxN
(* kinds whose sine version is the cosine version of the reversed input with  *)
(* the signs of every second output turned, or the other way round          *)
Cos2Sin == {"dst2", "dst3", "dst4"}
OpsOf(law) == CASE law = "undo" -> Ops
                [] law = "tdac" -> {"one", "sine", "skew"}
                [] law = "sine" -> Cos2Sin
                [] law = "transpose" -> Ops
Cases == TLCEval(UNION {UNION {{[law |-> law, op |-> op, n |-> n, i |-> i] :
                          i \in 0..((IF law = "tdac" THEN 4 * n ELSE n) - 1)} :
                        n \in Lens(law, op)} : <<law, op>> \in {<<l, o>> \in Laws \X (Ops \cup {"one","sine","skew"}) : o \in OpsOf(l)}})

RECURSIVE PrimeFrom(_, _)
PrimeFrom(c, m) == IF IsPrime(c) THEN c ELSE PrimeFrom(c + m, m)
RECURSIVE GenFrom(_, _)
GenFrom(g, p) == IF IsGenerator(g, p) THEN g ELSE GenFrom(g + 1, p)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a \div Gcd(a, b)) * b
Need(c) == CASE c.law = "tdac" -> 16 * c.n
             [] c.op \in Ops -> Lcm(Modulus(c.op, c.n), Modulus(Partner(c.op), c.n))
FieldOf == TLCEval([m \in {Need(c) : c \in Cases} |->
              LET p == PrimeFrom(m * (1 + 600 \div m) + 1, m) IN <<p, GenFrom(2, p)>>])
P(c) == FieldOf[Need(c)][1]
G(c) == FieldOf[Need(c)][2]

Unit(n, i) == [k \in 1..n |-> IF k = i + 1 THEN 1 ELSE 0]
Reverse1(x) == [k \in 1..Len(x) |-> x[Len(x) + 1 - k]]
Alternate(x, p) == [k \in 1..Len(x) |-> IF k % 2 = 0 THEN Neg(x[k], p) ELSE x[k]]

(* 4 * partner(op(x)) = Scale4 * x *)
Undo(c) == LET p == P(c) x == Unit(c.n, c.i)
               z == Transform(Partner(c.op), Transform(c.op, x, p, G(c)), p, G(c))
           IN  ScaleSeq(4, z, p) = ScaleSeq(Scale4(c.op, c.n) % p, x, p)

(* dst2(x) = reverse(dct2(alternate(x))), dst3(x) = alternate(dct3(reverse(x))),
   dst4(x) = alternate(dct4(reverse(x))) *)
SineLaw(c) ==
  LET p == P(c) g == G(c) x == Unit(c.n, c.i) IN
  CASE c.op = "dst2" -> Transform("dst2", x, p, g) = Reverse1(Transform("dct2", Alternate(x, p), p, g))
    [] c.op = "dst3" -> Transform("dst3", x, p, g) = Alternate(Transform("dct3", Reverse1(x), p, g), p)
    [] c.op = "dst4" -> Transform("dst4", x, p, g) = Alternate(Transform("dct4", Reverse1(x), p, g), p)

(* apart from the weights, kind op is the transpose of its partner           *)
Transpose(c) ==
  LET mod == Modulus(c.op, c.n)  ptn == Partner(c.op) IN
  \A k \in 0..(c.n-1) : Canon(Phase(c.op, c.n, k, c.i), mod) = Canon(Phase(ptn, c.n, c.i, k), Modulus(ptn, c.n))

(* three half-overlapping blocks of a signal of four halves: the two middle   *)
(* halves are reconstructed, times n (w[j]^2 + w[j+n]^2) / 2                  *)
Win(c, n, p, g) ==
  CASE c.op = "one" -> [j \in 1..(2*n) |-> 1]
    [] c.op = "sine" -> LET t == CosTab(p, g, 16*n)       \* sin(pi (2j-1)/(4n)) = cos(2 pi (4j-2+12n)/(16n))
                        IN [j \in 1..(2*n) |-> t[((4*j - 2 + 12*n) % (16*n)) + 1]]
    [] c.op = "skew" -> \* (1-t^2)/(1+t^2), 2t/(1+t^2) for t = 2, 3, ... mirrored
         LET den(t) == Inv(1 + t*t, p)
             h(j) == LET t == 1 + j IN (((1 + p*p - t*t) % p) * den(t)) % p
             m(j) == LET t == 1 + j IN ((2*t) * den(t)) % p
             first == [j \in 1..n |-> IF j <= n \div 2 THEN h(j) ELSE m(n + 1 - j)]
         IN [j \in 1..(2*n) |-> IF j <= n THEN first[j] ELSE first[2*n + 1 - j]]
Energy(c, p) == IF c.op = "one" THEN 2 ELSE 1
Tdac(c) ==
  LET n == c.n p == P(c) g == G(c)
      w == TLCEval(Win(c, n, p, g))
      x == Unit(4 * n, c.i)
      blk(s) == [k \in 1..n |-> x[s * n + k]]
      inv(s) == TLCEval(Imdct(n, w, Mdct(n, w, blk(s), blk(s + 1), p, g), p, g))
      y == [s \in 0..2 |-> inv(s)]
      mid(s) == [k \in 1..n |-> (y[s-1][n + k] + y[s][k]) % p]     \* half number s
  IN \A s \in 1..2 : ScaleSeq(2, mid(s), p) = ScaleSeq((n * Energy(c, p)) % p, blk(s), p)

Law(c) == CASE c.law = "undo" -> Undo(c)
            [] c.law = "sine" -> SineLaw(c)
            [] c.law = "transpose" -> Transpose(c)
            [] c.law = "tdac" -> Tdac(c)
(* in two steps, so that TLC's workers share the work *)
Init == q \in {[law |-> c.law, op |-> c.op, n |-> c.n, i |-> -1] : c \in Cases}
Next == \/ /\ q.i = -1
           /\ q' \in {c \in Cases : c.law = q.law /\ c.op = q.op /\ c.n = q.n}
        \/ UNCHANGED q
Spec == Init /\ [][Next]_vars
Holds == q.i >= 0 => Law(q)
=============================================================================
