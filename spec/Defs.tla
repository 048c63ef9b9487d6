-------------------------------- MODULE Defs --------------------------------
(***************************************************************************)
(* The textbook definitions of the sixteen DCT/DST kinds and of the MDCT,  *)
(* as integers.  Every coefficient of every transform has the form         *)
(*                                                                         *)
(*        (w/2) * cos(2*pi*ph/M)      w \in {1,2},  ph \in 0..M-1           *)
(*                                                                         *)
(* (a sine is a cosine a quarter turn earlier).  Output k of transform op  *)
(* of length n is   y[k] = SUM_i  Weight(op,n,i)/2 * x[i]                   *)
(*                              * cos(2*pi*Phase(op,n,k,i)/Modulus(op,n)).  *)
(* Indices k, i count from 0 as in the textbooks.                          *)
(*                                                                         *)
(* This module is the single source of truth: the exact runs (Field), the  *)
(* phase intervals of floating-point runs (TracePhase) and the harness's   *)
(* own double-precision reference (compared with the table exported by     *)
(* ExportDefs) all refer to it.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Ops == {"dct1","dct2","dct3","dct4","dct5","dct6","dct7","dct8",
        "dst1","dst2","dst3","dst4","dst5","dst6","dst7","dst8"}
Sines == {"dst1","dst2","dst3","dst4","dst5","dst6","dst7","dst8"}

MinLen(op) == IF op = "dct1" THEN 2 ELSE 1

(* a*b mod m without leaving TLC's 32-bit integers, for 0 <= a,b < m <= 2^20 *)
MulMod(a, b, m) ==
  IF a < 32768 /\ b < 32768 THEN (a * b) % m
  ELSE (((a * (b \div 1024)) % m) * 1024 + ((a * (b % 1024)) % m)) % m

(***************************************************************************)
(* The angle of a coefficient is 2*pi * Num(op,n,k,i) / BaseMod(op,n).      *)
(***************************************************************************)
BaseMod(op, n) ==
  CASE op = "dct1" -> 2*(n-1)
    [] op = "dst1" -> 2*(n+1)
    [] op \in {"dct2","dct3","dst2","dst3"} -> 4*n
    [] op \in {"dct4","dst4"} -> 8*n
    [] op = "dct5" -> 2*n-1
    [] op = "dst5" -> 2*n+1
    [] op \in {"dct6","dct7"} -> 2*(2*n-1)
    [] op \in {"dst6","dst7"} -> 2*(2*n+1)
    [] op = "dct8" -> 4*(2*n+1)
    [] op = "dst8" -> 4*(2*n-1)

Row(op, k) ==     \* the factor that depends on the output index
  CASE op \in {"dct1","dct2","dct5","dct6"} -> k
    [] op \in {"dct3","dct4","dct7","dct8","dst3","dst4","dst7","dst8"} -> 2*k+1
    [] op \in {"dst1","dst2","dst5","dst6"} -> k+1
Col(op, i) ==     \* the factor that depends on the input index
  CASE op \in {"dct1","dct3","dct5","dct7"} -> i
    [] op \in {"dct2","dct4","dct6","dct8","dst2","dst4","dst6","dst8"} -> 2*i+1
    [] op \in {"dst1","dst3","dst5","dst7"} -> i+1

BasePhase(op, n, k, i) ==
  LET m == BaseMod(op, n) IN MulMod(Row(op,k) % m, Col(op,i) % m, m)

(* which inputs are halved *)
HalfAt(op, n, i) ==
  CASE op = "dct1" -> i = 0 \/ i = n-1
    [] op \in {"dct3","dct5","dct7"} -> i = 0
    [] op \in {"dct6","dst3","dst8"} -> i = n-1
    [] OTHER -> FALSE
Weight(op, n, i) == IF HalfAt(op, n, i) THEN 1 ELSE 2

(* sin(2 pi q/m) = cos(2 pi (4q - m)/(4m)) = cos(2 pi (4q + 3m)/(4m)) *)
Modulus(op, n) == IF op \in Sines THEN 4 * BaseMod(op, n) ELSE BaseMod(op, n)
Phase(op, n, k, i) ==
  IF op \in Sines
  THEN (4 * BasePhase(op,n,k,i) + 3 * BaseMod(op,n)) % (4 * BaseMod(op,n))
  ELSE BasePhase(op, n, k, i)

(***************************************************************************)
(* The lapped transform of even length n: 2n windowed inputs, n outputs.   *)
(*   X[k] = SUM_{j<2n} w[j] x[j] cos(2 pi (2j+1+n)(2k+1) / (8n))            *)
(* and its inverse adds  w[j] * SUM_{k<n} X[k] * (the same cosine).        *)
(***************************************************************************)
MdctModulus(n) == 8 * n
MdctPhase(n, k, j) ==
  LET m == 8 * n IN MulMod((2*k+1) % m, (2*j+1+n) % m, m)

(***************************************************************************)
(* Which transform undoes op, and four times the factor that remains.      *)
(***************************************************************************)
Partner(op) ==
  CASE op = "dct2" -> "dct3" [] op = "dct3" -> "dct2"
    [] op = "dst2" -> "dst3" [] op = "dst3" -> "dst2"
    [] op = "dct6" -> "dct7" [] op = "dct7" -> "dct6"
    [] op = "dst6" -> "dst7" [] op = "dst7" -> "dst6"
    [] OTHER -> op
Scale4(op, n) ==
  CASE op = "dct1" -> 2*(n-1)
    [] op = "dst1" -> 2*(n+1)
    [] op \in {"dct2","dct3","dct4","dst2","dst3","dst4"} -> 2*n
    [] op \in {"dct5","dct6","dct7","dst8"} -> 2*n-1
    [] op \in {"dst5","dst6","dst7","dct8"} -> 2*n+1

(***************************************************************************)
(* The families of kinds that are served by one object.                    *)
(***************************************************************************)
Family(op) ==
  CASE op \in {"dct2","dct3","dst2","dst3"} -> "t23"
    [] op \in {"dct4","dst4"} -> "t4"
    [] op \in {"dct6","dct7"} -> "c67"
    [] op \in {"dst6","dst7"} -> "s67"
    [] OTHER -> op

(* cosine is even: a phase and its mirror image are the same coefficient *)
Canon(ph, m) == LET q == ph % m IN IF 2*q > m THEN m - q ELSE q
=============================================================================
