-------------------------------- MODULE Num --------------------------------
(* Real-valued quantities (volts, amperes, seconds, ohms ...) of the         *)
(* specification.  TLC has no reals, so a quantity is the text of an IEEE    *)
(* double ("1.5", "2.0E-9", "NaN") and the operators below are evaluated by  *)
(* spec/java/tsv/NumOverrides.java.  The definitions given here only state   *)
(* the signatures: TLC never evaluates them.                                 *)
EXTENDS Integers, Sequences

Quantity == STRING

NInt(i)    == CHOOSE x \in Quantity : TRUE   \* the integer i
NRead(t)   == CHOOSE x \in Quantity : TRUE   \* a decimal text, correctly rounded
NAdd(x, y) == CHOOSE z \in Quantity : TRUE
NSub(x, y) == CHOOSE z \in Quantity : TRUE
NMul(x, y) == CHOOSE z \in Quantity : TRUE
NDiv(x, y) == CHOOSE z \in Quantity : TRUE
NRem(x, y) == CHOOSE z \in Quantity : TRUE   \* remainder with the sign of x
NNeg(x)    == CHOOSE z \in Quantity : TRUE
NAbs(x)    == CHOOSE z \in Quantity : TRUE
NMax(x, y) == CHOOSE z \in Quantity : TRUE
NMin(x, y) == CHOOSE z \in Quantity : TRUE
NSin(x)    == CHOOSE z \in Quantity : TRUE
NExp(x)    == CHOOSE z \in Quantity : TRUE
NLog(x)    == CHOOSE z \in Quantity : TRUE
NLe(x, y)  == CHOOSE z \in BOOLEAN : TRUE
NLt(x, y)  == CHOOSE z \in BOOLEAN : TRUE
NEq(x, y)  == CHOOSE z \in BOOLEAN : TRUE
NFinite(x) == CHOOSE z \in BOOLEAN : TRUE
NFix9(x)   == CHOOSE t \in STRING  : TRUE    \* text of x with nine decimals

N0 == "0.0"
N1 == "1.0"
N2 == "2.0"

(* |x - y| within rel of the larger one, or within abs *)
NNear(x, y, rel, abs) ==
    \/ NEq(x, y)
    \/ NLe(NAbs(NSub(x, y)), NAdd(abs, NMul(rel, NMax(NAbs(x), NAbs(y)))))

(* equal but for the rounding of a few operations *)
NSame(x, y) == NNear(x, y, "1e-13", "0")

NDot(a, b, c, d) == NAdd(NMul(a, b), NMul(c, d))
============================================================================
