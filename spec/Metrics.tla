------------------------------ MODULE Metrics ------------------------------
(***************************************************************************)
(* Ranking and classification metrics.  A row is a sequence of ground      *)
(* truth gains (natural numbers) and a sequence of integer scores; results *)
(* are fixed-point numbers.                                                *)
(***************************************************************************)
EXTENDS Fixed, FiniteSets, SequencesExt

(* position of item i when the row is ordered by descending score; equal scores keep their order *)
Pos(sc, i) == 1 + Cardinality({j \in 1..Len(sc) : sc[j] > sc[i] \/ (sc[j] = sc[i] /\ j < i)})
(* gains in ranked order *)
Ranked(y, sc) == LET p == [i \in 1..Len(sc) |-> Pos(sc, i)] IN
                 TLCEval([r \in 1..Len(sc) |-> y[CHOOSE i \in 1..Len(sc) : p[i] = r]])
Ideal(y) == Ranked(y, y)

(* a cut-off is the given k, a share rn/rd of the items rounded up, or (k = 0) all items *)
CutOff(n, k, rn, rd) == IF rd > 0 THEN (n * rn + rd - 1) \div rd ELSE IF k = 0 THEN n ELSE Min2(k, n)

Hits(rel, k) == Cardinality({r \in 1..k : rel[r] > 0})
Ratio(a, b) == IF b = 0 THEN 0 ELSE Div(a * ONE, b * ONE)
Precision(rel, k) == Ratio(SumTo(rel, k), k)
Recall(rel, k) == Ratio(SumTo(rel, k), Sum(rel))
Disc(r) == Div(ONE, Log2((r + 1) * ONE))
RECURSIVE Dcg(_, _)
Dcg(rel, k) == IF k = 0 THEN 0 ELSE rel[k] * Disc(k) + Dcg(rel, k - 1)
Ndcg(y, sc, k) == LET i == Dcg(Ideal(y), k) IN IF i = 0 THEN 0 ELSE Div(Dcg(Ranked(y, sc), k), i)
(* precision at the rank of each relevant item, in ranked order *)
RelRanks(rel) == SelectSeq([r \in 1..Len(rel) |-> r], LAMBDA r : rel[r] > 0)
PrecAt(rel) == LET q == RelRanks(rel) IN [i \in 1..Len(q) |-> Ratio(i, q[i])]
RECURSIVE SufMax(_, _)
SufMax(s, i) == IF i = Len(s) THEN s[i] ELSE Max2(s[i], SufMax(s, i + 1))
Interp(s, method) == IF method = "legacy" THEN s ELSE [i \in 1..Len(s) |-> SufMax(s, i)]
MeanOf(s) == IF Len(s) = 0 THEN 0 ELSE Div(Sum(s), Len(s) * ONE)
(* average precision over the full ranking, as the documented examples show *)
AP(rel, method) == MeanOf(Interp(PrecAt(rel), method))
(* mean of 1/rank over the relevant items found before the cut-off *)
RR(rel, k) == LET q == SelectSeq(RelRanks(rel), LAMBDA r : r <= k) IN MeanOf([i \in 1..Len(q) |-> Ratio(1, q[i])])
(* precision at np evenly spaced recall levels *)
PRCurve(rel, method, np) ==
  LET s == Interp(PrecAt(rel), method)  m == Len(s) IN
  [j \in 1..np |-> IF m = 0 THEN 0 ELSE s[1 + ((j - 1) * (m - 1)) \div (np - 1)]]
(* a level that falls exactly on a relevant item may round to the one before it *)
PRAlt(rel, method, np) ==
  LET s == Interp(PrecAt(rel), method)  m == Len(s) IN
  [j \in 1..np |-> IF m = 0 THEN 0 ELSE
     LET x == (j - 1) * (m - 1) IN s[IF x > 0 /\ x % (np - 1) = 0 THEN x \div (np - 1) ELSE 1 + x \div (np - 1)]]
Levels(np) == [j \in 1..np |-> Ratio(j - 1, np - 1)]

(* c: [name, k, rn, rd, method] *)
RowMetric(c, y, sc) ==
  LET k == CutOff(Len(y), c.k, c.rn, c.rd)  rel == Ranked(y, sc) IN
  CASE c.name = "precision" -> Precision(rel, k)
    [] c.name = "recall" -> Recall(rel, k)
    [] c.name = "ndcg" -> Ndcg(y, sc, k)
    [] c.name = "map" -> AP(rel, c.method)
    [] c.name = "mrr" -> RR(rel, k)
RowsMetric(c, ys, scs) == TLCEval([i \in 1..Len(ys) |-> RowMetric(c, ys[i], scs[i])])
Binary(ys) == \A i \in 1..Len(ys) : \A j \in 1..Len(ys[i]) : ys[i][j] \in {0, 1}

-----------------------------------------------------------------------------
(* classification; labels are integers *)
Argmax(s) == (CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : s[i] >= s[j]) - 1
Labels(t, p) == Range(t) \cup Range(p)
Count(n, P(_)) == Cardinality({i \in 1..n : P(i)})
Accuracy(t, p) == Ratio(Count(Len(t), LAMBDA i : t[i] = p[i]), Len(t))
TP(t, p, c) == Count(Len(t), LAMBDA i : t[i] = c /\ p[i] = c)
NT(t, c) == Count(Len(t), LAMBDA i : t[i] = c)
F1c(t, p, c) == Ratio(2 * TP(t, p, c), NT(t, c) + NT(p, c))
Ordered(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
F1(t, p, avg) ==
  LET ls == Ordered(Labels(t, p)) IN
  CASE avg = "micro" -> Accuracy(t, p)
    [] avg = "macro" -> Div(Sum([i \in 1..Len(ls) |-> F1c(t, p, ls[i])]), Len(ls) * ONE)
    [] avg = "weighted" -> Div(Sum([i \in 1..Len(ls) |-> NT(t, ls[i]) * F1c(t, p, ls[i])]), Len(t) * ONE)
Confusion(t, p) ==
  LET ls == Ordered(Labels(t, p)) IN
  [a \in 1..Len(ls) |-> [b \in 1..Len(ls) |-> Count(Len(t), LAMBDA i : t[i] = ls[a] /\ p[i] = ls[b])]]
=============================================================================
