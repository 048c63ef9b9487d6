------------------------------- MODULE Bounds -------------------------------
(***************************************************************************)
(* Quantitative part of the contract: how large a rounding error, how much  *)
(* arithmetic and how much scratch is allowed at length n.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE Lg(_)
Lg(n) == IF n <= 1 THEN 0 ELSE 1 + Lg(n \div 2)      \* floor(log2 n)

(* kinds that have a fast algorithm, and those that are computed directly   *)
FastKinds == {"dct1","dct2","dct3","dct4","dst1","dst2","dst3","dst4","dst6","dst7",
              "mdct","imdct","tdac"}
IsFast(op) == op \in FastKinds

(***************************************************************************)
(* Errors relative to |input|_2.  rms is the root mean square over the        *)
(* outputs in units of eps/16; peak the largest error and at the largest one  *)
(* among a few outputs with a compensated reference, both in units of         *)
(* eps/16 * (1 + largest output/|input|_2); max the largest one in units of    *)
(* eps/16 * sqrt(outputs).  The Tight bounds are C15: logarithmic for the     *)
(* fast kinds, linear for the direct ones (8n is the worst that n roundings   *)
(* of partial sums can do).  They are about three times what was measured of  *)
(* the present code up to n = 131072.  Loose is what "up to rounding" means   *)
(* in the other properties: far weaker, but still far below any wrong         *)
(* coefficient, wrong sign or missing term in double precision.              *)
(***************************************************************************)
Direct(fast, n)    == IF fast THEN 0 ELSE 8 * n
RmsTight(fast, n)  == 256 + 64 * Lg(n) + Direct(fast, n)
PeakTight(fast, n) == 128 + 32 * Lg(n) + Direct(fast, n)
Loose(n)           == 4096 * (2 + Lg(n)) + 64 * n

(***************************************************************************)
(* C16: arithmetic operations of one call, and scratch.  The kinds that go   *)
(* through an FFT of twice their length or more get twice the allowance.    *)
(* Measured on the present code: at most 62 (those) and 29 (the others)     *)
(* times n (Lg n + 1), scratch at most 28 n, all near awkward primes.       *)
(***************************************************************************)
DoubledKinds == {"dct1","dst1","dst6","dst7"}
MaxOps(op, n) == (IF op \in DoubledKinds THEN 120 ELSE 60) * n * (Lg(n) + 1)
MaxScratch(n) == 64 * n

(***************************************************************************)
(* C20: bytes kept for a length by planner and instance together, bytes      *)
(* requested while planning, and arithmetic done then.  Measured: at most    *)
(* 28 n cells kept, 63 n requested, 28 n (Lg n + 1) operations, all near      *)
(* awkward primes, and a few thousand bytes at the shortest lengths.         *)
(***************************************************************************)
BaseBytes           == 16384
PerLength           == 80
TakenBytes(cell, n) == 4 * BaseBytes + 200 * cell * n
PlanOps(n)          == 1000 + 90 * n * (Lg(n) + 1)
=============================================================================
