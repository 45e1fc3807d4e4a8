------------------------------ MODULE MC_Utils ------------------------------
(***************************************************************************)
(* Every small pair of edge or adjacency lists, and every chain of         *)
(* conversions and renumberings on it; and every short history of the      *)
(* standard output.  TLC checks that nothing is lost, that conversions     *)
(* invert each other and that renumbering is a bijection.                  *)
(***************************************************************************)
EXTENDS Utils, Json, IOUtils, TLC
VARIABLES x
D == IF "MC_D" \in DOMAIN IOEnv THEN atoi(IOEnv.MC_D) ELSE 3
N == IF "MC_N" \in DOMAIN IOEnv THEN atoi(IOEnv.MC_N) ELSE 2
L == 1..3
SeqsTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
EdgeLists == SeqsTo(L \X L, N)
AdjLists == SeqsTo(SeqsTo(L, N), 2)
HyperLists == SeqsTo(SeqsTo(1..2, N), 2)
Chain == x.k \in {"edges", "adj", "hyper"}
Init == x = [k |-> "start"]
Step(y) == x' = [k |-> y.k, ls |-> y.ls, from |-> x.from, h |-> Append(x.h, y.a), prev |-> [k |-> x.k, ls |-> x.ls]]
Next ==
  \/ x.k = "start"
     /\ \/ \E l \in EdgeLists : x' = [k |-> "edges", ls |-> <<l>>, from |-> <<"edges", <<l>>>>, h |-> <<>>, prev |-> <<>>]
        \/ \E l \in AdjLists : x' = [k |-> "adj", ls |-> <<l>>, from |-> <<"adj", <<l>>>>, h |-> <<>>, prev |-> <<>>]
        \/ \E l \in HyperLists : x' = [k |-> "hyper", ls |-> <<l>>, from |-> <<"hyper", <<l>>>>, h |-> <<>>, prev |-> <<>>]
        \/ x' = [k |-> "term", t |-> Term0, h |-> <<>>]
  \/ Chain /\ x.h = <<>> /\ Len(x.ls) = 1      \* a second list renumbered together with the first
     /\ \E l \in {q \in (IF x.k = "edges" THEN EdgeLists ELSE IF x.k = "adj" THEN AdjLists ELSE HyperLists) : Len(q) = 1} :
          x' = [x EXCEPT !.ls = Append(@, l), !.from = <<x.k, Append(x.ls, l)>>]
  \/ Chain /\ Len(x.h) < D /\ \/ x.k = "edges" /\ Step([k |-> "adj", ls |-> [i \in 1..Len(x.ls) |-> ToAdj(x.ls[i])], a |-> "to_adj"])
                              \/ x.k = "adj" /\ Step([k |-> "edges", ls |-> [i \in 1..Len(x.ls) |-> ToEdges(x.ls[i])], a |-> "to_edges"])
                              \/ Step([k |-> x.k, ls |-> Remap(x.ls, FALSE), a |-> "remap"])
                              \/ x.k # "hyper" /\ Step([k |-> x.k, ls |-> Remap(x.ls, TRUE), a |-> "remap_bip"])
  \/ x.k = "term" /\ Len(x.h) < 4 /\ \/ \E f \in {1, 2} : x' = [x EXCEPT !.t = Tee(@, f), !.h = Append(@, <<"tee", f>>)]
                                     \/ \E m \in {7} : x' = [x EXCEPT !.t = Say(@, m), !.h = Append(@, <<"say", m>>)]
                                     \/ x' = [x EXCEPT !.h = Append(@, <<"bad">>)]
                                     \/ x' = [x EXCEPT !.t = Reset(@), !.h = Append(@, <<"reset">>)]
Emit == \/ Chain /\ Len(x.h) = D /\ PrintT("TEST " \o ToJson([from |-> x.from, h |-> x.h]))
        \/ x.k = "term" /\ Len(x.h) = 4 /\ PrintT("TEST " \o ToJson([from |-> <<"term">>, h |-> x.h]))
        \/ (Chain /\ Len(x.h) < D) \/ x.k = "start" \/ (x.k = "term" /\ Len(x.h) < 4)
Count(q, e) == Cardinality({i \in 1..Len(q) : q[i] = e})
Same(p, q) == \A e \in Items(p) \cup Items(q) : Count(p, e) = Count(q, e)
Laws ==
  Chain /\ x.h # <<>> =>
    LET a == x.h[Len(x.h)]  p == x.prev.ls IN
    /\ a = "to_adj" => \A i \in 1..Len(p) : Same(ToEdges(x.ls[i]), p[i]) /\ Cardinality({r[1] : r \in Items(x.ls[i])}) = Len(x.ls[i])
    /\ a = "to_edges" => \A i \in 1..Len(p) :
         (Cardinality({r[1] : r \in {q \in Items(p[i]) : q # <<>>}}) = Len(p[i]) /\ \A r \in Items(p[i]) : Len(r) >= 2) => ToAdj(x.ls[i]) = p[i]
    /\ a \in {"remap", "remap_bip"} =>
         LET m == Maps(p, a = "remap_bip") IN
         /\ \A k \in 1..Len(m) : {m[k][v] : v \in DOMAIN m[k]} = 0..(Cardinality(DOMAIN m[k]) - 1)
         /\ Apply(x.ls, Inverse(m[1]), Inverse(m[Len(m)])) = p
         /\ Remap(x.ls, a = "remap_bip") = x.ls
Ok == Laws /\ Emit
=============================================================================
