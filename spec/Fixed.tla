------------------------------- MODULE Fixed -------------------------------
(***************************************************************************)
(* Fixed-point arithmetic and small dense matrices for the specification.  *)
(* A number x is represented by round(x * ONE), ONE = 2^20, |x| < 2^10.    *)
(* TLC integers are 32 bits wide, hence the three 10-bit limbs in MulPos.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

ONE == 1048576
BAD == 2000000000        \* logged in place of NaN and of infinities
MaxVal == 1073741824     \* |x| < 2^10

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b

(* floor(a*b / 2^20) for a, b >= 0 and result < 2^31 *)
MulPos(a, b) ==
  LET a0 == a % 1024  a1 == (a \div 1024) % 1024  a2 == a \div 1048576
      b0 == b % 1024  b1 == (b \div 1024) % 1024  b2 == b \div 1048576
  IN  (a2 * b2) * 1048576 + (a2 * b1 + a1 * b2) * 1024
      + (a2 * b0 + a1 * b1 + a0 * b2)
      + ((a1 * b0 + a0 * b1 + ((a0 * b0) \div 1024)) \div 1024)

Mul(a, b) ==
  IF a = 0 \/ b = 0 THEN 0
  ELSE IF a = ONE THEN b
  ELSE IF b = ONE THEN a
  ELSE IF (a < 0) = (b < 0) THEN MulPos(Abs(a), Abs(b)) ELSE -MulPos(Abs(a), Abs(b))

(* a / b for 0 <= a, 0 < b: long division in base 2, 20 fractional bits *)
RECURSIVE FracBits(_, _, _, _)
FracBits(r, b, k, acc) ==
  IF k = 0 THEN acc
  ELSE IF 2 * r >= b THEN FracBits(2 * r - b, b, k - 1, 2 * acc + 1)
  ELSE FracBits(2 * r, b, k - 1, 2 * acc)

DivPos(a, b) == (a \div b) * ONE + FracBits(a % b, b, 20, 0)
Div(a, b) ==
  IF a = 0 THEN 0
  ELSE IF (a < 0) = (b < 0) THEN DivPos(Abs(a), Abs(b)) ELSE -DivPos(Abs(a), Abs(b))

(* 1/x with the convention 1/0 = 0 used for inverse degrees *)
Inv(x) == IF x = 0 THEN 0 ELSE Div(ONE, x)

(* square root by bisection: largest y with y*y <= x *)
RECURSIVE SqrtBis(_, _, _)
SqrtBis(x, lo, hi) ==
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN
       IF MulPos(m, m) <= x THEN SqrtBis(x, m, hi) ELSE SqrtBis(x, lo, m)
Sqrt(x) == IF x = 0 THEN 0 ELSE SqrtBis(x, 0, IF x < ONE THEN ONE + 1 ELSE 32 * ONE + 1)
InvSqrt(x) == IF x = 0 THEN 0 ELSE Sqrt(Div(ONE, x))

(* exp: halve the argument until |x| <= 1/8, Taylor, square back *)
RECURSIVE ExpTaylor(_, _, _, _)
ExpTaylor(x, k, term, acc) ==
  IF k > 8 \/ term = 0 THEN acc
  ELSE LET t == Div(Mul(term, x), k * ONE) IN ExpTaylor(x, k + 1, t, acc + t)
RECURSIVE ExpR(_)
ExpR(x) ==
  IF Abs(x) <= ONE \div 8 THEN ExpTaylor(x, 1, ONE, ONE)
  ELSE LET h == ExpR(x \div 2) IN Mul(h, h)
Exp(x) == IF x < -13 * ONE THEN 0 ELSE ExpR(x)

(* natural logarithm and log2 by bisection on Exp are not needed; Log2 uses
   the classical squaring scheme for x > 0. *)
RECURSIVE Log2Frac(_, _, _, _)
Log2Frac(y, k, bit, acc) ==        \* 1 <= y < 2
  IF k = 0 THEN acc
  ELSE LET z == MulPos(y, y) IN
       IF z >= 2 * ONE THEN Log2Frac(z \div 2, k - 1, bit \div 2, acc + bit)
       ELSE Log2Frac(z, k - 1, bit \div 2, acc)
RECURSIVE Log2(_)
Log2(x) == IF x >= 2 * ONE THEN ONE + Log2(x \div 2)
           ELSE IF x < ONE THEN Log2(2 * x) - ONE
           ELSE Log2Frac(x, 20, ONE \div 2, 0)

(* sums over sequences of numbers *)
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
Sum(s) == SumTo(s, Len(s))

(* closeness: absolute tolerance plus relative 2^-10 of it *)
Close(a, b, tol) == Abs(a) < MaxVal /\ Abs(b) < MaxVal /\ Abs(a - b) <= tol + (Abs(b) \div 16384)
CloseSeq(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Close(s[i], t[i], tol)
CloseMat(m, n, tol) == Len(m) = Len(n) /\ \A i \in 1..Len(m) : CloseSeq(m[i], n[i], tol)

(* matrices are sequences of rows *)
Mat(r, c, f(_, _)) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> f(i, j)])])
Vec(r, f(_)) == TLCEval([i \in 1..r |-> f(i)])
NRows(m) == Len(m)
NCols(m, dflt) == IF Len(m) = 0 THEN dflt ELSE Len(m[1])
RECURSIVE Dot(_, _, _, _, _)
Dot(a, b, i, j, k) == IF k = 0 THEN 0 ELSE Mul(a[i][k], b[k][j]) + Dot(a, b, i, j, k - 1)
(* a: r x m, b: m x c *)
MM(a, b, r, m, c) == Mat(r, c, LAMBDA i, j : Dot(a, b, i, j, m))
Transpose(a, r, c) == Mat(c, r, LAMBDA i, j : a[j][i])
Ident(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN ONE ELSE 0)
DiagM(d) == Mat(Len(d), Len(d), LAMBDA i, j : IF i = j THEN d[i] ELSE 0)
RowSum(a, i, c) == Sum(a[i])
RowSums(a) == Vec(Len(a), LAMBDA i : Sum(a[i]))
ScaleRows(d, a) == TLCEval([i \in 1..Len(a) |-> TLCEval([j \in 1..Len(a[i]) |-> Mul(d[i], a[i][j])])])
ScaleCols(a, d) == TLCEval([i \in 1..Len(a) |-> TLCEval([j \in 1..Len(a[i]) |-> Mul(a[i][j], d[j])])])
MAdd(a, b) == TLCEval([i \in 1..Len(a) |-> TLCEval([j \in 1..Len(a[i]) |-> a[i][j] + b[i][j]])])
MSub(a, b) == TLCEval([i \in 1..Len(a) |-> TLCEval([j \in 1..Len(a[i]) |-> a[i][j] - b[i][j]])])
MScale(k, a) == TLCEval([i \in 1..Len(a) |-> TLCEval([j \in 1..Len(a[i]) |-> Mul(k, a[i][j])])])
Map(f(_), s) == TLCEval([i \in 1..Len(s) |-> f(s[i])])
Range(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
