----------------------------- MODULE MC_Metrics -----------------------------
(***************************************************************************)
(* Exhaustive small universe of the metric definitions: every binary (and  *)
(* graded) ground truth under every ranking of N items, and every pair of  *)
(* label vectors of length M over three labels.                            *)
(***************************************************************************)
EXTENDS Metrics, Json, IOUtils
CONSTANTS N, M
VARIABLE x
NEnv == IF "MC_N" \in DOMAIN IOEnv THEN atoi(IOEnv.MC_N) ELSE 4
MEnv == IF "MC_M" \in DOMAIN IOEnv THEN atoi(IOEnv.MC_M) ELSE 3
Perms == {p \in [1..N -> 1..N] : \A i, j \in 1..N : i # j => p[i] # p[j]}
Grades == 0..2
(* built in two steps so that TLC's workers share the universe *)
Init == x = [kind |-> "start"]
Next == \/ x.kind = "start" /\ \/ \E y \in [1..N -> Grades] : x' = [kind |-> "y", y |-> y]
                               \/ \E t \in [1..M -> 0..2] : x' = [kind |-> "t", t |-> t]
        \/ x.kind = "y" /\ \E sc \in Perms : x' = [kind |-> "rank", y |-> x.y, sc |-> sc]
        \/ x.kind = "t" /\ \E p \in [1..M -> 0..2] : x' = [kind |-> "label", t |-> x.t, p |-> p]
Emit == x.kind \notin {"rank", "label"} \/ PrintT("TEST " \o ToJson(<<x>>))
Bin == [i \in 1..N |-> IF x.y[i] > 0 THEN 1 ELSE 0]
In01(v) == v >= 0 /\ v <= ONE + 4
Tol == 64
(* move the relevant item of one adjacent pair in front *)
Better(sc) == {s \in Perms : \E i, j \in 1..N : sc[i] = sc[j] + 1 /\ Bin[i] = 0 /\ Bin[j] = 1
                                /\ s = [sc EXCEPT ![i] = sc[j], ![j] = sc[i]]}
RankOk ==
  x.kind = "rank" =>
   LET y == Bin  rel == Ranked(Bin, x.sc) IN
   /\ \A k \in 1..N :
        /\ In01(Precision(rel, k)) /\ In01(Recall(rel, k)) /\ In01(Ndcg(y, x.sc, k)) /\ In01(RR(rel, k)) /\ In01(Ndcg(x.y, x.sc, k))
        /\ (Recall(rel, k) > 0) = (Precision(rel, k) > 0)
        /\ Abs(Ndcg(x.y, x.y, k) - (IF \A i \in 1..N : x.y[i] = 0 THEN 0 ELSE ONE)) <= 4
        /\ \A s \in Better(x.sc) :
             LET r2 == Ranked(y, s) IN
             /\ Precision(r2, k) >= Precision(rel, k) /\ Recall(r2, k) >= Recall(rel, k)
             /\ Ndcg(y, s, k) >= Ndcg(y, x.sc, k) - Tol
   /\ \A m \in {"legacy", "pascal_voc"} :
        /\ In01(AP(rel, m))
        /\ \A s \in Better(x.sc) : AP(Ranked(y, s), m) >= AP(rel, m) - Tol
        /\ \A j \in 1..4 : In01(PRCurve(rel, m, 5)[j]) /\ (m = "pascal_voc" => PRCurve(rel, m, 5)[j] >= PRCurve(rel, m, 5)[j + 1])
   /\ AP(rel, "pascal_voc") >= AP(rel, "legacy")
   /\ Recall(rel, N) = (IF Sum(y) = 0 THEN 0 ELSE ONE)
LabelOk ==
  x.kind = "label" =>
   LET c == Confusion(x.t, x.p)  n == Len(c) IN
   /\ \A a \in 1..n : Sum(c[a]) = NT(x.t, Ordered(Labels(x.t, x.p))[a])
   /\ Abs(Accuracy(x.t, x.p) - Ratio(Sum([a \in 1..n |-> c[a][a]]), M)) <= 2
   /\ \A v \in {"micro", "macro", "weighted"} : In01(F1(x.t, x.p, v)) /\ (x.t = x.p => Abs(F1(x.t, x.p, v) - ONE) <= 4)
Ok == RankOk /\ LabelOk /\ Emit
=============================================================================
