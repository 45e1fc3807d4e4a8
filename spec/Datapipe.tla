------------------------------ MODULE Datapipe ------------------------------
(***************************************************************************)
(* Data pipeline steps on matrices of fixed-point numbers.  A value is     *)
(* [t |-> "float"|"long"|"bool", m |-> matrix] (bool entries are 0 / ONE); *)
(* a step is [name, ord, lo, hi].                                          *)
(***************************************************************************)
EXTENDS Fixed

Abs1(row) == [j \in 1..Len(row) |-> Abs(row[j])]
RECURSIVE MaxTo(_, _)
MaxTo(s, k) == IF k = 1 THEN s[1] ELSE Max2(s[k], MaxTo(s, k - 1))
SqSum(row) == Sum([j \in 1..Len(row) |-> Mul(row[j], row[j])])
Norm(row, ord) == CASE ord = "1" -> Sum(Abs1(row)) [] ord = "2" -> Sqrt(SqSum(row)) [] ord = "inf" -> MaxTo(Abs1(row), Len(row))
NormRow(row, ord) == LET n == Norm(row, ord) IN [j \in 1..Len(row) |-> IF n = 0 THEN 0 ELSE Div(row[j], n)]
NormFt(m, ord) == TLCEval([i \in 1..Len(m) |-> NormRow(m[i], ord)])
Entries(m) == {m[i][j] : i \in 1..Len(m), j \in 1..Len(m[1])}
MinE(m) == CHOOSE x \in Entries(m) : \A y \in Entries(m) : x <= y
MaxE(m) == CHOOSE x \in Entries(m) : \A y \in Entries(m) : x >= y
MinMax(m, lo, hi) == LET a == MinE(m)  r == MaxE(m) - a IN
  TLCEval([i \in 1..Len(m) |-> TLCEval([j \in 1..Len(m[i]) |-> lo + Mul(Div(m[i][j] - a, r), hi - lo)])])
Trunc(x) == IF x >= 0 THEN (x \div ONE) * ONE ELSE -(((-x) \div ONE) * ONE)
MapM(f(_), m) == TLCEval([i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> f(m[i][j])]])
Apply(p, x) ==
  CASE p.name = "to_tensor" -> [t |-> "float", m |-> x.m]
    [] p.name = "to_long" -> [t |-> "long", m |-> MapM(Trunc, x.m)]
    [] p.name = "to_bool" -> [t |-> "bool", m |-> MapM(LAMBDA v : IF v = 0 THEN 0 ELSE ONE, x.m)]
    [] p.name = "norm" -> [t |-> "float", m |-> NormFt(x.m, p.ord)]
    [] p.name = "minmax" -> [t |-> "float", m |-> MinMax(x.m, p.lo, p.hi)]
RECURSIVE Compose(_, _)
Compose(ps, x) == IF ps = <<>> THEN x ELSE Compose(Tail(ps), Apply(Head(ps), x))
=============================================================================
