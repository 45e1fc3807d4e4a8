------------------------------ MODULE MC_Split ------------------------------
(***************************************************************************)
(* Labelled items: every label vector of up to N items over 3 classes and  *)
(* every small request; the split is an arbitrary choice, and TLC checks   *)
(* that choosing within classes in sequence gives a valid split.           *)
(* Interactions: every history of up to 2 users x 3 items, split, trained  *)
(* on and evaluated; TLC checks that evaluation never leaks.               *)
(***************************************************************************)
EXTENDS Split, Json, IOUtils, SequencesExt
CONSTANT N
VARIABLES x
NEnv == IF "MC_N" \in DOMAIN IOEnv THEN atoi(IOEnv.MC_N) ELSE 4
Labels == UNION {[1..n -> {0, 1, 3}] : n \in 1..N}
Nums == {<<k, 1>> : k \in 0..2}
Shares == {<<0, 1>>, <<1, 4>>, <<1, 2>>, <<3, 4>>, <<1, 1>>}
Reqs == [kind : {"num"}, t : Nums, v : Nums \cup {None}, s : Nums \cup {None}]
        \cup [kind : {"ratio"}, t : Shares, v : Shares \cup {None}, s : Shares \cup {None}]
UReqs == [kind : {"num"}, t : {<<k, 1>> : k \in 0..3}] \cup [kind : {"ratio"}, t : Shares]
U == 2
I == 3
Init == x = [k |-> "start"]
Next ==
  \/ x.k = "start" /\ (\/ \E lab \in Labels : x' = [k |-> "lab", lab |-> lab]
                       \/ \E adj \in [1..U -> SUBSET (0..(I - 1))] : x' = [k |-> "adj", adj |-> adj])
  \/ x.k = "lab" /\ \E r \in Reqs : x' = [k |-> "req", lab |-> x.lab, req |-> r]
  \/ x.k = "adj" /\ \E r \in UReqs : x' = [k |-> "ureq", adj |-> x.adj, req |-> r]
  \/ /\ x.k = "ureq"       \* the split: any choice of the right size
     /\ \E tr \in [1..U -> SUBSET (0..(I - 1))] :
          LET te == [u \in 1..U |-> x.adj[u] \ tr[u]] IN
          /\ \A u \in 1..U : tr[u] \subseteq x.adj[u]
          /\ IsUISplit(x.adj, x.req, tr, te)
          /\ x' = [k |-> "split", adj |-> x.adj, tr |-> tr, te |-> te]
  \/ /\ x.k = "split"      \* a training sample
     /\ \E u \in 1..U : \E p, n \in 0..(I - 1) : IsSample(x.tr, I, u, p, n) /\ x' = [x EXCEPT !.k = "sample"] @@ [u |-> u, p |-> p, n |-> n]

Emit == \/ x.k = "req" /\ PrintT("TEST " \o ToJson(<<[k |-> "req", lab |-> x.lab, req |-> x.req]>>))
        \/ x.k = "ureq" /\ PrintT("TEST " \o ToJson(<<[k |-> "ureq", adj |-> [u \in 1..U |-> SetToSeq(x.adj[u])], req |-> x.req]>>))
        \/ x.k \notin {"req", "ureq"}
(* first items of every class in order: one of the valid choices *)
Rank(S, i) == Cardinality({j \in S : j <= i})
FirstSplit(lab, req) ==
  LET z(i) == Sizes(req, Cardinality(Class(lab, lab[i])))  r(i) == Rank(Class(lab, lab[i]), i) IN
  [train |-> {i \in 1..Len(lab) : r(i) <= z(i)[1]},
   val |-> {i \in 1..Len(lab) : r(i) > z(i)[1] /\ r(i) <= z(i)[1] + z(i)[2]},
   test |-> {i \in 1..Len(lab) : r(i) > z(i)[1] + z(i)[2] /\ r(i) <= z(i)[1] + z(i)[2] + z(i)[3]}]
ReqOk ==
  x.k = "req" =>
    LET p == FirstSplit(x.lab, x.req) IN
    /\ IsSplit(x.lab, x.req, p)
    /\ (x.req.s = None => p.train \cup p.val \cup p.test = 1..Len(x.lab))
    /\ (~HasVal(x.req) => p.val = {})
    /\ (Feasible(x.req) /\ x.req.kind = "ratio" /\ x.req.s = None /\ x.req.t[1] > 0
          => \A c \in ClassesOf(x.lab) : Cardinality(p.test \cap Class(x.lab, c)) > 0 )
LeakOk ==
  /\ x.k = "split" => \A u \in 1..U : LET r == EvalRow(x.tr, x.te, u) IN r[1] \cap r[2] = {} /\ r[1] \cup r[2] = x.adj[u]
  /\ x.k = "sample" => x.p \in x.adj[x.u] /\ x.n \notin x.tr[x.u] /\ x.n # x.p
Ok == ReqOk /\ LeakOk /\ Emit
=============================================================================
