----------------------------- MODULE MC_Datapipe -----------------------------
(***************************************************************************)
(* All 2 x C matrices over a few values: laws of the single steps, and     *)
(* every chain of up to MC_LEN steps on a sample matrix, and all text      *)
(* tables of up to MC_ATOMS atoms.                                          *)
(***************************************************************************)
EXTENDS Datapipe, Tables, Json, IOUtils, FiniteSets
VARIABLE x
MaxLen == IF "MC_LEN" \in DOMAIN IOEnv THEN atoi(IOEnv.MC_LEN) ELSE 3
C == 3
Vals == {-2 * ONE, -(ONE \div 2), 0, ONE, 3 * ONE}
Ords == {"1", "2", "inf"}
Steps == {[name |-> n, ord |-> "", lo |-> 0, hi |-> 0] : n \in {"to_tensor", "to_long", "to_bool"}}
         \cup {[name |-> "norm", ord |-> o, lo |-> 0, hi |-> 0] : o \in Ords}
         \cup {[name |-> "minmax", ord |-> "", lo |-> a, hi |-> b] : a \in {-ONE, 0}, b \in {ONE, 4 * ONE}}
MaxAtoms == IF "MC_ATOMS" \in DOMAIN IOEnv THEN atoi(IOEnv.MC_ATOMS) ELSE 6
Atoms == {"a", "b", ",", ";", " ", NL}
Forms == {{",", " ", "\t"}, {","}, {";"}}
Init == x = [k |-> "start"]
Next == \/ x.k = "start" /\ (\/ \E r \in [1..C -> Vals] : x' = [k |-> "row", r |-> r]
                             \/ \E p \in Steps : x' = [k |-> "chain", ps |-> <<p>>]
                             \/ x' = [k |-> "text", a |-> <<>>])
        \/ x.k = "text" /\ Len(x.a) < MaxAtoms /\ \E c \in Atoms : x' = [x EXCEPT !.a = Append(@, c)]
        \/ x.k = "row" /\ \E r \in [1..C -> Vals] : x' = [k |-> "mat", m |-> <<x.r, r>>]
        \/ x.k = "chain" /\ Len(x.ps) < MaxLen /\ \E p \in Steps : x' = [k |-> "chain", ps |-> Append(x.ps, p)]
Emit == x.k # "chain" \/ PrintT("TEST " \o ToJson(x.ps))
(* a file is a table when no line is empty *)
Table(a) == a # <<>> /\ \A i \in 1..Len(Lines(a)) : Strip(Lines(a)[i]) # <<>>
EmitText == x.k # "text" \/ ~Table(x.a) \/ PrintT("TEST " \o ToJson([text |-> x.a]))
RECURSIVE Join(_, _)
Join(fs, sep) == IF Len(fs) = 1 THEN fs[1] ELSE fs[1] \o sep \o Join(Tail(fs), sep)
Count(a, c) == Cardinality({i \in 1..Len(a) : a[i] = c})
TextOk ==
  x.k = "text" /\ Table(x.a) =>
    \A f \in Forms :
      LET r == Rows(x.a, f, 0)  ls == Lines(x.a) IN
      /\ Len(r) = Count(x.a, NL) + (IF x.a[Len(x.a)] = NL THEN 0 ELSE 1)
      /\ \A h \in 1..3 : Rows(x.a, f, h) = SubSeq(r, h + 1, Len(r))
      (* one field more than separators, and nothing but the separators is lost *)
      /\ \A i \in 1..Len(r) : Len(r[i]) = 1 + Cardinality({j \in 1..Len(Strip(ls[i])) : Strip(ls[i])[j] \in f})
      /\ Cardinality(f) = 1 => \A i \in 1..Len(r) : Join(r[i], CHOOSE c \in f : TRUE) = Glue(Strip(ls[i]))
Near(a, b) == Abs(a - b) <= 8
RowOk(r) == \A o \in Ords : LET q == NormRow(r, o) IN
              IF \A j \in 1..C : r[j] = 0 THEN \A j \in 1..C : q[j] = 0
              ELSE /\ Near(Norm(q, o), ONE)
                   /\ \A j \in 1..C : (q[j] = 0) = (r[j] = 0) /\ (q[j] > 0) = (r[j] > 0)
MatOk ==
  x.k = "mat" =>
    /\ RowOk(x.m[1])
    /\ Cardinality(Entries(x.m)) > 1 =>
         LET q == MinMax(x.m, -ONE, 2 * ONE) IN
         /\ Near(MinE(q), -ONE) /\ Near(MaxE(q), 2 * ONE)
         /\ \A i \in 1..2, j \in 1..C : \A a \in 1..2, b \in 1..C : x.m[i][j] < x.m[a][b] => q[i][j] < q[a][b]
    /\ LET y == [t |-> "float", m |-> x.m]  b == Apply([name |-> "to_bool", ord |-> "", lo |-> 0, hi |-> 0], y) IN
         Apply([name |-> "to_bool", ord |-> "", lo |-> 0, hi |-> 0], b) = b
Ok == MatOk /\ TextOk /\ Emit /\ EmitText
=============================================================================
