-------------------------------- MODULE Field --------------------------------
(***************************************************************************)
(* Exact arithmetic for the transforms of Defs.  If p is a prime and M      *)
(* divides p-1, sending cos(2 pi a/M) to (r^a + r^-a)/2, where r has order  *)
(* M in GF(p), is a ring homomorphism; a transform evaluated in GF(p) is    *)
(* the image of the real one, with no rounding.  p < 46341 keeps every      *)
(* product within 32 bits.                                                 *)
(***************************************************************************)
EXTENDS Defs, TLC, FiniteSetsExt, SequencesExt

RECURSIVE PowMod(_, _, _)
PowMod(b, e, p) ==
  IF e = 0 THEN 1 % p
  ELSE LET h == PowMod(b, e \div 2, p)
           s == (h * h) % p
       IN IF e % 2 = 1 THEN (s * b) % p ELSE s

Inv(a, p) == PowMod(a % p, p - 2, p)
Neg(a, p) == (p - a) % p

(* r^0 .. r^(M-1) as a sequence *)
Powers(r, M, p) == FoldLeftDomain(LAMBDA acc, j : Append(acc, (acc[Len(acc)] * r) % p),
                                  <<1>>, [j \in 1..(M-1) |-> 0])

(* table of cos(2 pi a/M), a = 0..M-1, stored at index a+1, and half of it *)
CosTab(p, g, M) ==
  LET r  == PowMod(g, (p-1) \div M, p)
      pw == Powers(r, M, p)
      i2 == (p + 1) \div 2
  IN  [a \in 1..M |-> ((pw[a] + pw[((M - (a-1)) % M) + 1]) * i2) % p]

(* g generates the multiplicative group: what the harness must have used *)
PrimeFactors(m) == {q \in 2..m : m % q = 0 /\ \A d \in 2..q : d * d > q \/ q % d # 0}
IsPrime(p) == p > 1 /\ \A d \in 2..216 : d * d > p \/ p % d # 0
RECURSIVE Strip(_, _, _)
Strip(m, d, acc) ==      \* prime factors of m by trial division
  IF m = 1 THEN acc
  ELSE IF d * d > m THEN acc \cup {m}
  ELSE IF m % d = 0 THEN Strip(m \div d, d, acc \cup {d})
  ELSE Strip(m, d + 1, acc)
IsGenerator(g, p) == \A q \in Strip(p - 1, 2, {}) : PowMod(g, (p-1) \div q, p) # 1

(***************************************************************************)
(* y = op(x) in GF(p).  Sequences are indexed from 1 here.                 *)
(***************************************************************************)
Transform(op, x, p, g) ==
  LET n  == Len(x)
      M  == Modulus(op, n)
      C  == TLCEval(CosTab(p, g, M))
      i2 == (p + 1) \div 2
      w  == TLCEval([i \in 1..n |-> IF HalfAt(op, n, i-1) THEN (x[i] * i2) % p ELSE x[i]])
  IN  [k \in 1..n |->
         MapThenSumSet(LAMBDA i : (w[i] * C[Phase(op, n, k-1, i-1) + 1]) % p, 1..n) % p]

Mdct(n, win, a, b, p, g) ==
  LET C == TLCEval(CosTab(p, g, 8*n))
      v == TLCEval([j \in 1..(2*n) |-> (win[j] * (IF j <= n THEN a[j] ELSE b[j-n])) % p])
  IN  [k \in 1..n |->
         MapThenSumSet(LAMBDA j : (v[j] * C[MdctPhase(n, k-1, j-1) + 1]) % p, 1..(2*n)) % p]

(* the 2n values an inverse call adds *)
Imdct(n, win, x, p, g) ==
  LET C == TLCEval(CosTab(p, g, 8*n))
  IN  [j \in 1..(2*n) |->
         (win[j] * (MapThenSumSet(LAMBDA k : (x[k] * C[MdctPhase(n, k-1, j-1) + 1]) % p, 1..n) % p)) % p]

AddSeq(a, b, p) == [i \in 1..Len(a) |-> (a[i] + b[i]) % p]
ScaleSeq(c, a, p) == [i \in 1..Len(a) |-> (c * a[i]) % p]
=============================================================================
