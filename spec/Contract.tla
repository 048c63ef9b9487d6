------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* The contract of construction and of calls: what is accepted, what a      *)
(* construction reports, and what a rejected call may leave behind.         *)
(***************************************************************************)
EXTENDS Defs

RECURSIVE IsPow2(_)
IsPow2(n) == n = 1 \/ (n > 1 /\ n % 2 = 0 /\ IsPow2(n \div 2))

NaiveKinds == {"Dct1Naive","Dst1Naive","Type2And3Naive","Type4Naive","Dct5Naive","Dst5Naive",
               "Dct6And7Naive","Dst6And7Naive","Dct8Naive","Dst8Naive"}
FftKinds == {"Dct1ConvertToFft","Dst1ConvertToFft","Type2And3ConvertToFft","Type4ConvertToFftOdd",
             "Dst6And7ConvertToFft"}
MdctKinds == {"MdctNaive","MdctViaDct4","plan_mdct"}

(***************************************************************************)
(* x, y: the sizes given (naive: the length; FFT based: the FFT's length;   *)
(* split radix: lengths of the half and the quarter; MDCT: its length and   *)
(* the number of values the window function returned); dir: FFT direction,  *)
(* or the kind planned.                                                    *)
(***************************************************************************)
ValidCtor(kind, x, y, dir) ==
  CASE kind = "Dct1Naive"             -> x # 1
    [] kind = "plan"                  -> dir = "dct1" => x # 1
    [] kind \in NaiveKinds \ {"Dct1Naive"} -> TRUE
    [] kind \in {"Dct1ConvertToFft","Dst1ConvertToFft"} -> dir = "fwd" /\ x % 2 = 0
    [] kind = "Type2And3ConvertToFft" -> dir = "fwd"
    [] kind \in {"Type4ConvertToFftOdd","Dst6And7ConvertToFft"} -> dir = "fwd" /\ x % 2 = 1
    [] kind = "Type4ConvertToType3Even" -> TRUE
    [] kind = "Type2And3SplitRadix"   -> IsPow2(2*x) /\ 2*x > 2 /\ x = 2*y
    [] kind = "Type2And3Butterfly"    -> x \in {2,3,4,8,16}
    [] kind \in MdctKinds             -> x % 2 = 0 /\ y = 2*x

(* the reported length of a valid construction *)
CtorLen(kind, x) ==
  CASE kind = "Dct1ConvertToFft" -> x \div 2 + 1
    [] kind = "Dst1ConvertToFft" -> x \div 2 - 1
    [] kind = "Dst6And7ConvertToFft" -> (x - 1) \div 2
    [] kind \in {"Type4ConvertToType3Even","Type2And3SplitRadix"} -> 2*x
    [] OTHER -> x

(* sizes for which the documentation promises nothing: an empty transform   *)
Empty(kind, x) == x = 0 \/ (ValidCtor(kind, x, 2*x, "fwd") /\ CtorLen(kind, x) = 0)

(***************************************************************************)
(* Calls.  A signal call has one buffer, an MDCT call three; s is the       *)
(* scratch length, -1 for the convenience methods, which bring their own.   *)
(***************************************************************************)
ValidSignalCall(n, adv, b, s) == b = n /\ (s = -1 \/ s >= adv)
ValidMdctCall(n, adv, a, b, c, s) == a = n /\ b = n /\ c = n /\ s >= adv
=============================================================================
