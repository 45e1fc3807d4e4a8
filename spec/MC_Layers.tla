------------------------------ MODULE MC_Layers ------------------------------
(***************************************************************************)
(* Every layer with every combination of its switches on every small       *)
(* structure; TLC checks that the specified propagation has the right      *)
(* shape and commutes with relabelling vertices.  Also every short history *)
(* of a HyperGCN model over two hypergraphs.                               *)
(***************************************************************************)
EXTENDS Layers, Json, IOUtils
VARIABLES x
N == 3
Big == "MC_BIG" \in DOMAIN IOEnv
U == ONE \div 8
GPairs == <<<<0, 1>>, <<0, 2>>, <<1, 2>>, <<1, 1>>>>
HSets == <<<<0, 1>>, <<1, 2>>, <<0, 1, 2>>, <<2>>>>
WSets == IF Big THEN {0, ONE, ONE \div 2} ELSE {0, ONE}
GKinds4 == {"GCNConv", "GraphSAGEConv", "GATConv", "GINConv"}
HKinds8 == {"HGNNConv", "HGNNPConv", "JHConv", "HNHNConv", "UniGCNConv", "UniGATConv", "UniSAGEConv", "UniGINConv"}
Init == x = [k |-> "start"]
Next ==
  \/ /\ x.k = "start"
     /\ \/ \E kd \in GKinds4 : \E w \in [1..4 -> WSets] : \E w1 \in {ONE, 2 * ONE} :
             x' = [k |-> "struct", conv |-> kd, st |-> [kind |-> "G", nu |-> 0, nv |-> N, extra |-> FALSE,
                   es |-> SelectSeq([i \in 1..4 |-> <<GPairs[i][1], GPairs[i][2], IF i = 2 /\ w[i] # 0 THEN w1 ELSE w[i]>>], LAMBDA e : e[3] # 0)]]
        \/ \E kd \in HKinds8 : \E w \in [1..4 -> WSets] : \E w1 \in {ONE, 2 * ONE} :
             x' = [k |-> "struct", conv |-> kd, st |-> [kind |-> "H", nv |-> N,
                   es |-> SelectSeq([i \in 1..4 |-> <<HSets[i], IF i = 3 /\ w[i] # 0 THEN w1 ELSE w[i], IF i = 4 THEN "other" ELSE "main">>], LAMBDA e : e[2] # 0)]]
        \/ \E fast, med \in BOOLEAN : \E h \in [1..3 -> {<<a, b>> : a \in {1, 2}, b \in BOOLEAN}] :
             x' = [k |-> "hist", fast |-> fast, med |-> med, h |-> h]
  \/ /\ x.k = "struct"
     /\ \E last, bn, bias, train \in BOOLEAN : x' = [x EXCEPT !.k = "case"] @@ [last |-> last, bn |-> bn, bias |-> bias, train |-> train]
Emit == \/ x.k = "case" /\ PrintT("TEST " \o ToJson(x))
        \/ x.k = "hist" /\ PrintT("TEST " \o ToJson(x))
        \/ x.k \notin {"case", "hist"}
(* fixed parameters, two channels in and out *)
Theta(b) == [w |-> <<<<3 * U, -5 * U>>, <<2 * U, 7 * U>>>>, b |-> IF b THEN <<U, -2 * U>> ELSE <<0, 0>>]
Theta4(b) == [w |-> <<<<3 * U, -5 * U, U, 2 * U>>, <<2 * U, 7 * U, -U, 3 * U>>>>, b |-> IF b THEN <<U, -2 * U>> ELSE <<0, 0>>]
BnP == <<<<9 * U, 7 * U>>, <<U, 0>>, <<2 * U, -U>>, <<8 * U, 6 * U>>>>
Par == [theta |-> IF x.conv = "GraphSAGEConv" THEN Theta4(x.bias) ELSE Theta(x.bias), theta2 |-> Theta(FALSE), bn |-> IF x.bn THEN BnP ELSE <<>>,
        last |-> x.last, drop |-> 0, slope |-> SLOPE, asrc |-> <<4 * U, 3 * U>>, adst |-> <<-2 * U, 5 * U>>, ae |-> <<6 * U, 2 * U>>, eps |-> 2 * U,
        mlp |-> [lin |-> <<Theta(x.bias)>>, bns |-> IF x.bn THEN <<BnP>> ELSE <<>>, act |-> "relu", slope |-> 0, last |-> x.last, drop |-> 0]]
X == <<<<8 * U, -3 * U>>, <<5 * U, 2 * U>>, <<-4 * U, 16 * U>>>>
Perm == [i \in 1..N |-> i % N]                    \* vertex i-1 becomes Perm[i]
Move(Y) == [i \in 1..N |-> Y[CHOOSE j \in 1..N : Perm[j] = i - 1]]
MoveV(vs) == [i \in 1..Len(vs) |-> Perm[vs[i] + 1]]
MoveSt(st) == IF st.kind = "H" THEN [st EXCEPT !.es = [i \in 1..Len(@) |-> <<MoveV(@[i][1]), @[i][2], @[i][3]>>]]
              ELSE [st EXCEPT !.es = [i \in 1..Len(@) |-> <<Perm[@[i][1] + 1], Perm[@[i][2] + 1], @[i][3]>>]]
Run(st, Y) == Conv(x.conv, Par, IF st.kind = "H" THEN MkHyper(st) ELSE MkGraph(st), IF st.kind = "H" THEN Ord(st) ELSE <<>>, Y, x.train)
Laws == x.k = "case" => LET a == Run(x.st, X)  b == Run(MoveSt(x.st), Move(X)) IN
                        /\ Len(a) = N /\ \A i \in 1..N : Len(a[i]) = 2
                        /\ (x.train /\ x.bn /\ ~x.last) \/ CloseMat(b, Move(a), 64)
                        /\ (x.train /\ x.bn /\ ~x.last) \/ ~x.train \/ a = Conv(x.conv, Par, IF x.st.kind = "H" THEN MkHyper(x.st) ELSE MkGraph(x.st), IF x.st.kind = "H" THEN Ord(x.st) ELSE <<>>, X, FALSE)
Ok == Laws /\ Emit
=============================================================================
