------------------------------- MODULE Stages -------------------------------
(***************************************************************************)
(* The stages of the library's fast algorithms as functions: what is handed  *)
(* to the inner transforms, and how their results become the output.        *)
(* Algorithms runs them as a state machine and compares with Defs;           *)
(* TraceStages compares them with what the code hands to its inner           *)
(* transforms.                                                              *)
(*                                                                         *)
(* j is a call [alg, op, n, w, ...], w being the inner transforms' want of    *)
(* scratch; c a context [p, g, m, c]: field, generator, modulus, and table    *)
(* of cosines of that modulus.  Arrays are functions on 0..len-1.           *)
(***************************************************************************)
EXTENDS Field

Garbage == -1

(***************************************************************************)
(* Which fields the constants of an algorithm live in.                      *)
(***************************************************************************)
Roots(alg, n) ==
  CASE alg = "dct1fft" -> 8*(n-1)
    [] alg = "dst1fft" -> 8*(n+1)
    [] alg \in {"t23fft","split","butterfly"} -> IF n % 2 = 0 THEN 16*n ELSE 16*n
    [] alg \in {"t4even","t4odd"} -> 32*n
    [] alg = "s67fft" -> 8*(2*n+1)
    [] alg = "mdct" -> 8*n

(***************************************************************************)
(* Arithmetic.                                                              *)
(***************************************************************************)
Add(c, x, y) == IF x = Garbage \/ y = Garbage THEN Garbage ELSE (x + y) % c.p
Sub(c, x, y) == IF x = Garbage \/ y = Garbage THEN Garbage ELSE (x - y + c.p) % c.p
Mul(c, x, y) == IF x = Garbage \/ y = Garbage THEN Garbage ELSE (x * y) % c.p
Minus(c, x)  == Sub(c, 0, x)
Half(c) == (c.p + 1) \div 2
Cos(c, q, len) == LET f == c.m \div len IN c.c[(((q % len) * f) % c.m) + 1]
Sin(c, q, len) == Cos(c, (4 * (q % len)) + 3 * len, 4 * len)
Sqrt2(c) == (2 * Cos(c, 1, 8)) % c.p
SqrtHalf(c) == Cos(c, 1, 8)
(* library's single_twiddle(q, len) = exp(-2 pi i q / len), and its conjugate *)
Tw(c, q, len)  == <<Cos(c, q, len), Minus(c, Sin(c, q, len))>>
TwC(c, q, len) == <<Cos(c, q, len), Sin(c, q, len)>>

(* complex numbers are pairs <<re, im>> *)
CMul(c, u, v) == << Sub(c, Mul(c, u[1], v[1]), Mul(c, u[2], v[2])),
                    Add(c, Mul(c, u[1], v[2]), Mul(c, u[2], v[1])) >>
CScale(c, u, k) == << Mul(c, u[1], k), Mul(c, u[2], k) >>
CNeg(c, u) == << Minus(c, u[1]), Minus(c, u[2]) >>

(***************************************************************************)
(* Arrays.  Write(f, w): f overwritten at the cells of w, which must exist.  *)
(***************************************************************************)
Dim(f) == Cardinality(DOMAIN f)
Write(f, w) == IF DOMAIN w \subseteq DOMAIN f
               THEN TLCEval([k \in DOMAIN f |-> IF k \in DOMAIN w THEN w[k] ELSE f[k]])
               ELSE Assert(FALSE, <<"write outside of the array", DOMAIN f, DOMAIN w>>)
Slice(f, from, len) == IF from + len <= Dim(f) THEN TLCEval([k \in 0..(len-1) |-> f[from + k]])
                       ELSE Assert(FALSE, <<"slice outside of the array", Dim(f), from, len>>)
At(w, from) == TLCEval([k \in {from + q : q \in DOMAIN w} |-> w[k - from]])
Spoiled(f) == [k \in DOMAIN f |-> Garbage]
Rev(f) == LET d == Dim(f) IN TLCEval([k \in DOMAIN f |-> f[d - 1 - k]])
NegOdd(c, f) == TLCEval([k \in DOMAIN f |-> IF k % 2 = 1 THEN Minus(c, f[k]) ELSE f[k]])

(* pairs of cells of the scratch as complex numbers *)
Complex(f, len) == TLCEval([k \in 0..(len-1) |-> <<f[2*k], f[2*k+1]>>])
Flat(z) == TLCEval([k \in 0..(2 * Dim(z) - 1) |-> IF k % 2 = 0 THEN z[k \div 2][1] ELSE z[k \div 2][2]])
Clean(z) == \A k \in DOMAIN z : z[k][1] # Garbage /\ z[k][2] # Garbage
Sum(c, S, f(_)) == MapThenSumSet(f, S) % c.p

(* forward FFT by definition; reads every cell *)
Fft(c, z) ==
  LET len == Dim(z)
      live == {j \in DOMAIN z : z[j] # <<0, 0>>}         \* the others add nothing
  IN
  IF ~Clean(z) THEN [k \in DOMAIN z |-> <<Garbage, Garbage>>]
  ELSE TLCEval([k \in DOMAIN z |->
         << Sum(c, live, LAMBDA j : (z[j][1] * Cos(c, j*k, len) + z[j][2] * Sin(c, j*k, len)) % c.p),
            Sum(c, live, LAMBDA j : (z[j][2] * Cos(c, j*k, len) + (c.p - z[j][1]) * Sin(c, j*k, len)) % c.p) >>])

(* an inner transform: its definition, on clean data *)
Inner(c, op, f) ==
  LET len == Dim(f)
      mod == Modulus(op, len)
      wt(i) == IF HalfAt(op, len, i) THEN Half(c) ELSE 1
      live == {i \in DOMAIN f : f[i] # 0}
  IN IF \E k \in DOMAIN f : f[k] = Garbage THEN Spoiled(f)
     ELSE TLCEval([k \in DOMAIN f |->
            Sum(c, live, LAMBDA i : (((f[i] * wt(i)) % c.p) * Cos(c, Phase(op, len, k, i), mod)) % c.p)])

(***************************************************************************)
(* Scratch.  Wants: what an inner transform of length len may ask for.      *)
(***************************************************************************)
Wants(len) == <<0, len, 2*len, 2*len + 1, 5*len + 3>>
InnerFft(j) == CASE j.alg = "dct1fft" -> 2*(j.n-1)
                 [] j.alg = "dst1fft" -> 2*(j.n+1)
                 [] j.alg = "s67fft"  -> 2*j.n+1
                 [] OTHER -> j.n
InnerWant(j) == CASE j.alg \in {"split","t4even"} -> Wants(j.n \div 2)[j.w]
                  [] j.alg = "mdct" -> Wants(j.n)[j.w]
                  [] OTHER -> Wants(InnerFft(j))[j.w]        \* in complex cells
Advertised(j) ==
  CASE j.alg \in {"dct1fft","dst1fft","s67fft","t23fft","t4odd"} -> 2 * (InnerFft(j) + InnerWant(j))
    [] j.alg \in {"split","t4even"} -> IF InnerWant(j) <= j.n THEN j.n ELSE j.n + InnerWant(j)
    [] j.alg = "butterfly" -> 0
    [] j.alg = "mdct" -> j.n + InnerWant(j)

(***************************************************************************)
(* FFT-based algorithms: fill the FFT's input, run it, read its output.     *)
(***************************************************************************)
Real(v) == <<v, 0>>
FillFft(j, c, b) ==      \* what is written into the FFT's buffer; cells left out keep their content
  LET n == j.n  len == InnerFft(j)  even == (n + 1) \div 2  oddEnd == n - 1 - (n % 2) IN
  CASE j.op = "dct1" -> [k \in 0..(len-1) |-> Real(IF k < n THEN b[k] ELSE b[len - k])]
    [] j.op = "dst1" -> [k \in 0..(len-1) |->
                           IF k = 0 \/ k = n + 1 THEN Real(0)
                           ELSE IF k <= n THEN Real(b[k-1]) ELSE Real(Minus(c, b[len - 1 - k]))]
    [] j.op \in {"dct2","dst2"} ->
         [k \in 0..(n-1) |-> IF k < even THEN Real(b[2*k])
                             ELSE Real(IF j.op = "dct2" THEN b[oddEnd - 2*(k-even)]
                                                        ELSE Minus(c, b[oddEnd - 2*(k-even)]))]
    [] j.op = "dct3" ->
         [k \in 0..(n-1) |-> IF k = 0 THEN Real(Mul(c, b[0], Half(c)))
                             ELSE CScale(c, CMul(c, <<b[k], b[n-k]>>, Tw(c, k, 4*n)), Half(c))]
    [] j.op = "dst3" ->
         [k \in 0..(n-1) |-> IF k = 0 THEN Real(Mul(c, b[n-1], Half(c)))
                             ELSE CScale(c, CMul(c, <<b[n-k-1], b[k-1]>>, Tw(c, k, 4*n)), Half(c))]
    [] j.op \in {"dct4","dst4"} ->
         [k \in 0..(n-1) |->
            LET t == n \div 2 + 4*k  q == t \div n  r == t % n
                fwd == b[r]  bwd == b[n-1-r]
            IN Real(IF j.op = "dct4"
                    THEN CASE q = 0 -> fwd [] q = 1 -> Minus(c, bwd) [] q = 2 -> Minus(c, fwd)
                           [] q = 3 -> bwd [] OTHER -> fwd
                    ELSE CASE q = 0 -> bwd [] q = 1 -> Minus(c, fwd) [] q = 2 -> Minus(c, bwd)
                           [] q = 3 -> fwd [] OTHER -> bwd)]
    [] j.op = "dst6" ->
         [k \in 0..(len-1) |-> IF k % 2 = 1 THEN <<0, b[(k-1) \div 2]>> ELSE Real(0)]
    [] j.op = "dst7" ->
         LET odd == n - even
             back == [k \in (n+1)..(2*n) |->
                        IF k < n + 1 + even THEN b[2*(k-n-1)] ELSE b[2*(odd - (k-n-even-1)) - 1]]
         IN [k \in 0..(len-1) |-> IF k = 0 THEN Real(0)
                                  ELSE IF k > n THEN Real(back[k])
                                  ELSE Real(Minus(c, back[len - k]))]

ReadFft(j, c, z) ==
  LET n == j.n  len == InnerFft(j)  even == (n + 1) \div 2  odd == n - even  oddEnd == n - 1 - (n % 2) IN
  CASE j.op = "dct1" -> [k \in 0..(n-1) |-> Mul(c, z[k][1], Half(c))]
    [] j.op = "dst1" -> [k \in 0..(n-1) |-> Mul(c, z[len-1-k][2], Half(c))]
    [] j.op = "dct2" -> [k \in 0..(n-1) |-> CMul(c, z[k], Tw(c, k, 4*n))[1]]
    [] j.op = "dst2" -> [k \in 0..(n-1) |-> CMul(c, z[n-1-k], Tw(c, n-1-k, 4*n))[1]]
    [] j.op = "dct3" -> [k \in 0..(n-1) |-> IF k % 2 = 0 THEN z[k \div 2][1]
                                            ELSE z[even + (oddEnd - k) \div 2][1]]
    [] j.op = "dst3" -> [k \in 0..(n-1) |-> IF k % 2 = 0 THEN z[k \div 2][1]
                                            ELSE Minus(c, z[even + (oddEnd - k) \div 2][1])]
    [] j.op \in {"dct4","dst4"} ->
         LET sc == SqrtHalf(c)
             half == n \div 2  quarter == n \div 4
             second == IF n % 4 = 1 THEN 1 ELSE c.p - 1
             sgn(i) == IF i % 2 = 0 THEN sc ELSE Minus(c, sc)
             f(i) == CScale(c, z[4*i+1], sgn(i))
             x(i) == CScale(c, z[4*i+3], sgn(i))
             last == CScale(c, z[n-2], sgn(quarter))
             D == j.op = "dct4"
             cell(k) ==
               IF k < 2 * quarter
               THEN IF k % 2 = 0 THEN Add(c, f(k \div 2)[1], f(k \div 2)[2])
                    ELSE IF D THEN Sub(c, x(k \div 2)[2], x(k \div 2)[1])
                              ELSE Sub(c, x(k \div 2)[1], x(k \div 2)[2])
               ELSE IF k >= n - 2 * quarter
               THEN LET i == (n - 1 - k) \div 2 IN
                    IF (n - 1 - k) % 2 = 1
                    THEN Mul(c, IF D THEN Add(c, x(i)[1], x(i)[2]) ELSE Minus(c, Add(c, x(i)[1], x(i)[2])), second)
                    ELSE Mul(c, Sub(c, f(i)[1], f(i)[2]), second)
               ELSE IF k = half
               THEN LET v == Mul(c, z[0][1], sgn(quarter)) IN IF n % 4 = 1 \/ ~D THEN v ELSE Minus(c, v)
               ELSE IF k = half - 1 THEN Add(c, last[1], last[2])
               ELSE Sub(c, last[2], last[1])
         IN [k \in 0..(n-1) |-> cell(k)]
    [] j.op = "dst6" -> [k \in 0..(n-1) |-> IF k % 2 = 1 THEN z[(k-1) \div 2 + 1][1]
                                            ELSE z[even - k \div 2 - 1 + odd + 1][1]]
    [] j.op = "dst7" -> [k \in 0..(n-1) |-> Mul(c, z[2*k+1][2], Half(c))]

FftAlgs == {"dct1fft","dst1fft","t23fft","t4odd","s67fft"}
(***************************************************************************)
(* Split radix: one transform of half and two of a quarter of the length,   *)
(* at cells 0, n/2 and 3n/4 of the scratch.  The sine kinds negate every     *)
(* second input (or output) and reverse.                                    *)
(***************************************************************************)
SrTw(c, j, i) == TwC(c, 2*i+1, 4*j.n)
SrPre2(j, c, b) ==
  LET n == j.n h == n \div 2 q == n \div 4
      low(i) == Sub(c, b[i], b[n-1-i])
      up(i)  == Sub(c, b[h-1-i], b[h+i])
      t(i) == SrTw(c, j, i)
      cosIn(i) == Add(c, Mul(c, low(i), t(i)[1]), Mul(c, up(i), t(i)[2]))
      sinIn(i) == Sub(c, Mul(c, up(i), t(i)[1]), Mul(c, low(i), t(i)[2]))
  IN [k \in 0..(n-1) |->
        IF k < q THEN Add(c, b[k], b[n-1-k])
        ELSE IF k < h THEN Add(c, b[k], b[n-1-k])
        ELSE IF k < h + q THEN cosIn(k - h)
        ELSE LET i == n - 1 - k IN IF i % 2 = 0 THEN sinIn(i) ELSE Minus(c, sinIn(i))]
SrPost2(j, c, f) ==
  LET n == j.n h == n \div 2 q == n \div 4
      ev(i) == f[h + i]
      od(i) == IF (i + q) % 2 = 0 THEN Minus(c, f[h + q + (q - i)]) ELSE f[h + q + (q - i)]
  IN [k \in 0..(n-1) |->
        IF k % 2 = 0 THEN f[k \div 2]
        ELSE IF k = 1 THEN ev(0)
        ELSE IF k = n - 1 THEN Minus(c, f[h + q])
        ELSE IF k % 4 = 3 THEN Add(c, ev((k+1) \div 4), od((k+1) \div 4))
        ELSE Sub(c, ev(k \div 4), od(k \div 4))]
SrPre3(j, c, b) ==
  LET n == j.n h == n \div 2 q == n \div 4
      n1(i) == IF i = 0 THEN Add(c, b[1], b[1]) ELSE Add(c, b[4*i-1], b[4*i+1])
      n3(k) == IF k = 0 THEN Add(c, b[n-1], b[n-1])
               ELSE LET i == q - k IN Sub(c, b[4*i-1], b[4*i+1])
  IN [k \in 0..(n-1) |-> IF k < h THEN b[2*k]
                         ELSE IF k < h + q THEN n1(k - h) ELSE n3(k - h - q)]
SrPost3(j, c, f) ==
  LET n == j.n h == n \div 2 q == n \div 4
      co(i) == f[h + i]
      si(i) == IF i % 2 = 0 THEN f[h + q + i] ELSE Minus(c, f[h + q + i])
      t(i) == SrTw(c, j, i)
      low(i) == Add(c, Mul(c, co(i), t(i)[1]), Mul(c, si(i), t(i)[2]))
      up(i)  == Sub(c, Mul(c, co(i), t(i)[2]), Mul(c, si(i), t(i)[1]))
  IN [k \in 0..(n-1) |->
        IF k < q THEN Add(c, f[k], low(k))
        ELSE IF k < h THEN Add(c, f[k], up(h-1-k))
        ELSE IF k < h + q THEN Sub(c, f[n-1-k], up(k-h))
        ELSE Sub(c, f[n-1-k], low(n-1-k))]

(***************************************************************************)
(* Type 4 of even length over types 3 of half the length: a cosine and a    *)
(* sine transform, at cells 0 and n/2.                                      *)
(***************************************************************************)
T4Pre(j, c, b) ==
  LET n == j.n h == n \div 2 IN
  IF j.op = "dct4"
  THEN [k \in 0..(n-1) |->
          IF k = 0 THEN Add(c, b[0], b[0])
          ELSE IF k < h THEN Add(c, b[2*k-1], b[2*k])
          ELSE IF k = n - 1 THEN Add(c, b[n-1], b[n-1])
          ELSE LET i == k - h + 1 IN Sub(c, b[2*i-1], b[2*i])]
  ELSE [k \in 0..(n-1) |->
          IF k = h - 1 THEN Add(c, b[n-1], b[n-1])
          ELSE IF k < h THEN Add(c, b[2*k+1], b[2*k+2])
          ELSE IF k = h THEN Add(c, b[0], b[0])
          ELSE LET i == k - h IN Sub(c, b[2*i], b[2*i-1])]
T4Post(j, c, f) ==
  LET n == j.n h == n \div 2
      t(k) == TwC(c, 2*k+1, 8*n)
  IN [k \in 0..(n-1) |->
        IF k < h THEN Add(c, Mul(c, f[k], t(k)[1]), Mul(c, f[h+k], t(k)[2]))
        ELSE LET i == n - 1 - k IN
             IF j.op = "dct4" THEN Sub(c, Mul(c, f[i], t(i)[2]), Mul(c, f[h+i], t(i)[1]))
                              ELSE Sub(c, Mul(c, f[h+i], t(i)[1]), Mul(c, f[i], t(i)[2]))]

(***************************************************************************)
(* Both use the scratch for the parts, and the signal buffer as the inner    *)
(* transforms' scratch unless they need more than it holds.                 *)
(***************************************************************************)
Parts(j) == IF j.alg = "split"
            THEN LET sine == IF j.op \in {"dct2","dst2"} THEN "dct2" ELSE "dct3" IN
                 << <<sine, 0, j.n \div 2>>, <<sine, j.n \div 2, j.n \div 4>>,
                    <<sine, j.n \div 2 + j.n \div 4, j.n \div 4>> >>
            ELSE IF j.op = "dct4" THEN << <<"dct3", 0, j.n \div 2>>, <<"dst3", j.n \div 2, j.n \div 2>> >>
            ELSE << <<"dst3", 0, j.n \div 2>>, <<"dct3", j.n \div 2, j.n \div 2>> >>
Entry(j, c, b) == CASE j.op = "dst2" -> NegOdd(c, b) [] j.op = "dst3" -> Rev(b) [] OTHER -> b
Exit(j, c, b) == CASE j.op = "dst2" -> Rev(b) [] j.op = "dst3" -> NegOdd(c, b) [] OTHER -> b
(***************************************************************************)
(* Butterflies of 4, 8 and 16 cells are one split-radix step over smaller    *)
(* ones, written out; those of 2 and 3 are the definition, written out.      *)
(***************************************************************************)
RECURSIVE Bfly(_, _, _, _)
Bfly(c, op, n, b) == TLCEval(
  LET r == SqrtHalf(c) hf == Half(c)
      tw(i) == TwC(c, 2*i+1, 4*n)
      lift(f) == [k \in 0..(n \div 2 - 1) |-> f[k]]
  IN
  CASE n = 1 /\ op = "dct2" -> b
    [] n = 1 /\ op = "dct3" -> [k \in {0} |-> Mul(c, b[0], hf)]
    [] op = "dst2" -> Rev(Bfly(c, "dct2", n, NegOdd(c, b)))
    [] op = "dst3" -> NegOdd(c, Bfly(c, "dct3", n, Rev(b)))
    [] n = 2 /\ op = "dct2" -> (0 :> Add(c, b[0], b[1])) @@ (1 :> Mul(c, Sub(c, b[0], b[1]), r))
    [] n = 2 /\ op = "dct3" -> LET h0 == Mul(c, b[0], hf) f1 == Mul(c, b[1], r)
                               IN (0 :> Add(c, h0, f1)) @@ (1 :> Sub(c, h0, f1))
    [] n = 3 /\ op = "dct2" -> (0 :> Add(c, Add(c, b[0], b[1]), b[2]))
                            @@ (1 :> Mul(c, Sub(c, b[0], b[2]), Cos(c, 1, 12)))
                            @@ (2 :> Sub(c, Mul(c, Add(c, b[0], b[2]), hf), b[1]))
    [] n = 3 /\ op = "dct3" -> LET h0 == Mul(c, b[0], hf) h2 == Mul(c, b[2], hf) t1 == Mul(c, b[1], Cos(c, 1, 12))
                               IN (0 :> Add(c, Add(c, h0, t1), h2)) @@ (1 :> Sub(c, h0, b[2]))
                               @@ (2 :> Add(c, Sub(c, h0, t1), h2))
    [] op = "dct2" ->
         LET j == [n |-> n]
             f == TLCEval(SrPre2(j, c, b))
             part(from, len) == Bfly(c, "dct2", len, Slice(f, from, len))
         IN SrPost2(j, c, Write(f, At(part(0, n \div 2), 0) @@ At(part(n \div 2, n \div 4), n \div 2)
                                   @@ At(part(n \div 2 + n \div 4, n \div 4), n \div 2 + n \div 4)))
    [] op = "dct3" ->
         LET j == [n |-> n]
             f == TLCEval(SrPre3(j, c, b))
             part(from, len) == Bfly(c, "dct3", len, Slice(f, from, len))
         IN SrPost3(j, c, Write(f, At(part(0, n \div 2), 0) @@ At(part(n \div 2, n \div 4), n \div 2)
                                   @@ At(part(n \div 2 + n \div 4, n \div 4), n \div 2 + n \div 4))))

(***************************************************************************)
(* The lapped transform over a type 4: windowed inputs are folded into half  *)
(* their number, the inverse unfolds and adds.                              *)
(***************************************************************************)
Fold(j, c, b, w) ==
  LET n == j.n h == n \div 2
      v == TLCEval([k \in 0..(2*n-1) |-> Mul(c, b[k], w[k])])
  IN [k \in 0..(n-1) |->
        IF k < h THEN Sub(c, Minus(c, v[n + h - 1 - k]), v[n + h + k])
        ELSE Sub(c, v[k - h], v[n - 1 - (k - h)])]
Unfold(j, c, f, before, w) ==
  LET n == j.n h == n \div 2
      r == [k \in 0..(2*n-1) |->
              CASE k < h -> f[h + k]
                [] k < n -> Minus(c, f[h + n - 1 - k])
                [] k < n + h -> Minus(c, f[h - 1 - (k - n)])
                [] OTHER -> Minus(c, f[k - n - h])]
  IN [k \in 0..(2*n-1) |-> Add(c, before[k], Mul(c, r[k], w[k]))]
=============================================================================
