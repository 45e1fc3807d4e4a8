------------------------------- MODULE Utils -------------------------------
(***************************************************************************)
(* Utilities: edge lists, adjacency lists and their renumbering (C21),     *)
(* plus the small helpers next to them (exact binomials, dropping entries  *)
(* of a sparse matrix, copying the standard output to files).              *)
(*                                                                         *)
(* A label is represented by the rank of its text among all texts of the   *)
(* history, so the order of labels is the order of naturals.  A list of    *)
(* edges is a sequence of sequences; so is an adjacency list (row: source, *)
(* then targets).                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))
Items(q) == {q[i] : i \in 1..Len(q)}

(* ---- conversions ---- *)
Targets(el, u) == LET mine == SelectSeq(el, LAMBDA e : e[1] = u) IN [i \in 1..Len(mine) |-> mine[i][2]]
Sources(el) == \* distinct sources in the order of their first appearance
  LET first(i) == \A j \in 1..(i - 1) : el[j][1] # el[i][1]
      at == SelectSeq([i \in 1..Len(el) |-> i], first)
  IN [k \in 1..Len(at) |-> el[at[k]][1]]
ToAdj(el) == LET ss == Sources(el) IN [k \in 1..Len(ss) |-> <<ss[k]>> \o Targets(el, ss[k])]
RowEdges(r) == IF Len(r) <= 1 THEN <<>> ELSE [j \in 1..(Len(r) - 1) |-> <<r[1], r[j + 1]>>]
ToEdges(adj) == Concat([i \in 1..Len(adj) |-> RowEdges(adj[i])])

(* ---- renumbering ---- *)
Rank(S, x) == Cardinality({y \in S : y < x})
Map(S) == [x \in S |-> Rank(S, x)]
All(ls) == UNION {UNION {Items(l[i]) : i \in 1..Len(l)} : l \in Items(ls)}
Firsts(ls) == UNION {{l[i][1] : i \in {j \in 1..Len(l) : Len(l[j]) >= 1}} : l \in Items(ls)}
Rests(ls) == UNION {UNION {Items(Tail(l[i])) : i \in {j \in 1..Len(l) : Len(l[j]) >= 1}} : l \in Items(ls)}
(* bipartite: the first entry of a row is in one vertex set, the others in the other *)
Maps(ls, bip) == IF bip THEN <<Map(Firsts(ls)), Map(Rests(ls))>> ELSE <<Map(All(ls))>>
Row(r, f, g) == [j \in 1..Len(r) |-> IF j = 1 THEN f[r[1]] ELSE g[r[j]]]
Apply(ls, f, g) == [a \in 1..Len(ls) |-> [i \in 1..Len(ls[a]) |-> Row(ls[a][i], f, g)]]
Remap(ls, bip) == LET m == Maps(ls, bip) IN Apply(ls, m[1], m[Len(m)])
Inverse(m) == [n \in {m[x] : x \in DOMAIN m} |-> CHOOSE x \in DOMAIN m : m[x] = n]

(* ---- Pascal's triangle; numbers are little endian sequences of base 10^4 digits ---- *)
Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET d == Digit(a, i) + Digit(b, i) + carry IN <<d % 10000>> \o AddFrom(a, b, i + 1, d \div 10000)
Add(a, b) == AddFrom(a, b, 1, 0)
(* row n holds C(n, 0), ..., C(n, n + 2); zero is the empty number *)
FirstRow == <<<<1>>, <<>>, <<>>>>
NextRow(row) == [k \in 1..(Len(row) + 1) |-> Add(IF k = 1 THEN <<>> ELSE row[k - 1], IF k <= Len(row) THEN row[k] ELSE <<>>)]

(* ---- dropping entries of a sparse matrix (a function from positions to values) ---- *)
(* a position that is absent from the result holds zero *)
At(out, x) == IF x \in DOMAIN out THEN out[x] ELSE 0
Dropped(m, p, fill, out) ==
  /\ DOMAIN out \subseteq DOMAIN m
  /\ \A x \in DOMAIN m : At(out, x) \in (IF p = 0 THEN {m[x]} ELSE IF p = 16 THEN {fill} ELSE {m[x], fill})

(* ---- the standard output: a stack of files it is copied to ---- *)
Term0 == [tee |-> <<>>, term |-> <<>>, files |-> [f \in 1..3 |-> <<>>]]
Tee(t, f) == [t EXCEPT !.tee = Append(@, f)]
Say(t, m) ==
  LET times(f) == Cardinality({i \in 1..Len(t.tee) : t.tee[i] = f}) IN
  [t EXCEPT !.term = Append(@, m), !.files = [f \in DOMAIN @ |-> @[f] \o [i \in 1..times(f) |-> m]]]
Reset(t) == [t EXCEPT !.tee = <<>>]
=============================================================================
