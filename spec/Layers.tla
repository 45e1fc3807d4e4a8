------------------------------- MODULE Layers -------------------------------
(***************************************************************************)
(* Neural layers, models, losses (C23) as functions of their parameters,   *)
(* a structure and a feature matrix, in 2^-20 fixed point.                 *)
(*                                                                         *)
(* p, the parameters of a layer:                                           *)
(*   theta: [w (out x in), b (out)]   bn: <<>> or <<w, b, mean, var>>      *)
(*   last: no activation, normalisation and dropout                        *)
(*   drop: dropout rate in sixteenths                                      *)
(* mode: [train]; in training batch statistics are used and dropout is on. *)
(* Dropout here is the identity (rate 0) or zero (rate 16); other rates    *)
(* are a choice per entry, see Dropped.                                    *)
(***************************************************************************)
EXTENDS Passing

EPS == 10                               \* 1e-5, added to a variance
Row(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])
Each(X, F(_)) == TLCEval([i \in 1..Len(X) |-> TLCEval([j \in 1..Len(X[i]) |-> F(X[i][j])])])
DotS(a, b) == LET RECURSIVE D(_)
                  D(k) == IF k = 0 THEN 0 ELSE Mul(a[k], b[k]) + D(k - 1)
              IN D(Len(a))
Linear(X, t) == TLCEval([i \in 1..Len(X) |-> TLCEval([j \in 1..Len(t.w) |-> DotS(X[i], t.w[j]) + t.b[j]])])
Zeros(X) == Each(X, LAMBDA x : 0)
Hcat(Xs) == TLCEval([i \in 1..Len(Xs[1]) |->
  LET RECURSIVE J(_)
      J(k) == IF k = 0 THEN <<>> ELSE J(k - 1) \o Xs[k][i]
  IN J(Len(Xs))])
Vcat(A, B) == A \o B
MulEach(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[i]) |-> Mul(A[i][j], B[i][j])])])

(* activations *)
Relu(x) == IF x > 0 THEN x ELSE 0
Leaky(x, s) == IF x > 0 THEN x ELSE Mul(x, s)
Elu(x) == IF x > 0 THEN x ELSE Exp(x) - ONE
Sigmoid(x) == IF x >= 0 THEN Div(ONE, ONE + Exp(-x)) ELSE LET e == Exp(x) IN Div(e, ONE + e)
Tanh(x) == IF x >= 0 THEN ONE - Mul(2 * ONE, Sigmoid(-2 * x)) ELSE Mul(2 * ONE, Sigmoid(2 * x)) - ONE
LN2 == 726817
Ln(x) == Mul(Log2(x), LN2)
Softplus(x) == IF x > 0 THEN x + Ln(ONE + Exp(-x)) ELSE Ln(ONE + Exp(x))
Act(nm, x, s) == CASE nm = "relu" -> Relu(x) [] nm = "leaky" -> Leaky(x, s) [] nm = "elu" -> Elu(x)
                   [] nm = "sigmoid" -> Sigmoid(x) [] nm = "tanh" -> Tanh(x) [] nm = "none" -> x

(* batch normalisation: running statistics in evaluation, those of the batch in training *)
ColMean(X, j) == Sum([i \in 1..Len(X) |-> X[i][j]]) \div Len(X)
ColVar(X, j, m) == Sum([i \in 1..Len(X) |-> Mul(X[i][j] - m, X[i][j] - m)]) \div Len(X)
Norm(X, bn, train) ==
  IF bn = <<>> THEN X
  ELSE LET d == NCol(X)
           m == Row(d, LAMBDA j : IF train THEN ColMean(X, j) ELSE bn[3][j])
           \* a column without variance becomes constant; columns with next to none are not compared (see the driver)
           k == Row(d, LAMBDA j : LET v == IF train THEN ColVar(X, j, m[j]) ELSE bn[4][j] IN IF v < 4096 THEN 0 ELSE InvSqrt(v + EPS))
       IN TLCEval([i \in 1..Len(X) |-> TLCEval([j \in 1..d |-> Mul(Mul(X[i][j] - m[j], k[j]), bn[1][j]) + bn[2][j]])])
Drop(X, rate, train) == IF train /\ rate = 16 THEN Zeros(X) ELSE X
(* what every layer ends with *)
Finish(X, p, act, train) == IF p.last THEN X ELSE Norm(Each(X, LAMBDA x : Act(act, x, 0)), p.bn, train)
FinishD(X, p, act, train) == IF p.last THEN X ELSE Drop(Finish(X, p, act, train), p.drop, train)

-----------------------------------------------------------------------------
(* structures *)
MkGraph(e) == GAdd(NewGraph(e.kind, e.nu, e.nv, e.extra), e.es, "sum")
RECURSIVE HyperFrom(_, _, _)
HyperFrom(h, es, i) == IF i > Len(es) THEN h ELSE HyperFrom(TLCEval(HAddOne(h, es[i][3], Range(es[i][1]), es[i][2], "sum")), es, i + 1)
MkHyper(e) == HyperFrom(NewHyper(e.nv, UnitWeights(e.nv)), e.es, 1)
Ord(e) == [i \in 1..Len(e.es) |-> <<e.es[i][3], e.es[i][1]>>]
Pass(x, o, nm, aggr, X) ==
  PassResult(x, o, [nm |-> nm, aggr |-> aggr, aggr2 |-> aggr, dir |-> "dst2src", X |-> X, hasw |-> FALSE, ws |-> <<>>,
                    hasew |-> FALSE, ew |-> <<>>, hasw2 |-> FALSE, ws2 |-> <<>>])
(* hyperedges to vertices when there may be no hyperedge *)
ToV(x, o, aggr, Y, d) == HE2VAgg(x, o, aggr, Y, d, FALSE, <<>>)

(* ---- graph convolutions ---- *)
GCNConv(p, g, X, train) == FinishD(Apply(GLapGCN(g), Linear(X, p.theta)), p, "relu", train)
SAGEConv(p, g, X, train) == FinishD(Linear(Hcat(<<X, Pass(g, <<>>, "v2v_g", "mean", X)>>), p.theta), p, "relu", train)
Clamp(x) == Min2(Max2(x, 1049), 5 * ONE)   \* attention scores are kept in [0.001, 5]
(* attention of vertex i to its neighbour j; p.asrc belongs to the sender, p.adst to the receiver *)
GATConv(p, g, X, train) ==
  LET Z == Linear(X, p.theta)
      s == Row(Len(Z), LAMBDA i : DotS(Z[i], p.asrc))
      d == Row(Len(Z), LAMBDA i : DotS(Z[i], p.adst))
      conn == {<<c[2], c[1]>> : c \in GDirected(g)}     \* <<receiver, sender>>
      score(c) == LET x == Leaky(s[c[2] + 1] + d[c[1] + 1], p.slope) IN Clamp(IF train /\ p.drop = 16 THEN 0 ELSE x)
      Y == Agg(g.nv, NCol(Z), conn, TLCEval([c \in conn |-> score(c)]), Z, "softmax_then_sum", <<>>)
  IN Finish(Y, p, "elu", train)
(* a sequence of modules <<"linear", t>>, <<"act", name, slope>>, <<"bn", bn>>, <<"drop", rate>> *)
RECURSIVE SeqNet(_, _, _, _)
SeqNet(ms, X, train, i) ==
  IF i > Len(ms) THEN X
  ELSE SeqNet(ms, CASE ms[i][1] = "linear" -> Linear(X, ms[i][2])
                    [] ms[i][1] = "act" -> Each(X, LAMBDA x : Act(ms[i][2], x, ms[i][3]))
                    [] ms[i][1] = "bn" -> Norm(X, ms[i][2], train)
                    [] ms[i][1] = "drop" -> Drop(X, ms[i][2], train), train, i + 1)
Lin(t) == <<"linear", t>>
ActM(nm, s) == <<"act", nm, s>>
(* the declared order: linear, activation, normalisation, dropout; is_last leaves only the linear map of the last block *)
RECURSIVE MLPNet(_, _)
MLPNet(p, i) ==
  IF i > Len(p.lin) THEN <<>>
  ELSE <<Lin(p.lin[i])>> \o
       (IF i = Len(p.lin) /\ p.last THEN <<>>
        ELSE <<ActM(p.act, p.slope)>> \o (IF p.bns = <<>> THEN <<>> ELSE <<<<"bn", p.bns[i]>>>>) \o <<<<"drop", p.drop>>>>)
       \o MLPNet(p, i + 1)
MLP(p, X, train) == SeqNet(MLPNet(p, 1), X, train, 1)
TwoBlocks(p, mid, slope, end, X, train) ==
  SeqNet(<<Lin(p.l1), ActM(mid, slope), <<"drop", p.drop>>, Lin(p.l2), ActM(end, 0)>>, X, train, 1)
GINConv(p, g, X, train) == MLP(p.mlp, MAdd(MScale(ONE + p.eps, X), Pass(g, <<>>, "v2v_g", "sum", X)), train)

(* ---- hypergraph convolutions; x: hypergraph, o: order of hyperedges ---- *)
Smooth(x, o, X) == Apply(HLhgnn(x, o), X)
HGNNConv(p, x, o, X, train) == FinishD(Smooth(x, o, Linear(X, p.theta)), p, "relu", train)
JHConv(p, x, o, X, train) == FinishD(MAdd(Smooth(x, o, Linear(X, p.theta)), X), p, "relu", train)
VtoE(x, o, X) == Pass(x, o, "v2e", "mean", X)
HGNNPConv(p, x, o, X, train) == LET Z == Linear(X, p.theta) IN FinishD(ToV(x, o, "mean", VtoE(x, o, Z), NCol(Z)), p, "relu", train)
HNHNConv(p, x, o, X, train) ==
  LET Y == Each(VtoE(x, o, Linear(X, p.theta)), Relu) IN
  FinishD(ToV(x, o, "mean", Linear(Y, p.theta2), Len(p.theta2.w)), p, "relu", train)
UniGCNConv(p, x, o, X, train) ==
  LET Z == Linear(X, p.theta)
      dv == HDv(x, o)
      k(e) == LET S == Range(o[e][2]) IN InvSqrt(SumOver(S, LAMBDA v : dv[v + 1]) \div Cardinality(S))
      Y == ScaleRows(Row(Len(o), k), VtoE(x, o, Z))
  IN FinishD(ScaleRows(InvSqrtVec(dv), ToV(x, o, "sum", Y, NCol(Z))), p, "relu", train)
UniGATConv(p, x, o, X, train) ==
  LET Z == Linear(X, p.theta)
      Y == VtoE(x, o, Z)
      a == Row(Len(o), LAMBDA e : Clamp(IF train /\ p.drop = 16 THEN 0 ELSE Leaky(DotS(Y[e], p.ae), p.slope)))
      conn == HConn(x, o)
  IN Finish(Agg(x.nv, NCol(Z), conn, TLCEval([c \in conn |-> a[c[2] + 1]]), Y, "softmax_then_sum", <<>>), p, "elu", train)
UniSAGEConv(p, x, o, X, train) ==
  LET Z == Linear(X, p.theta) IN FinishD(MAdd(ToV(x, o, "sum", VtoE(x, o, Z), NCol(Z)), Z), p, "relu", train)
UniGINConv(p, x, o, X, train) ==
  LET Z == Linear(X, p.theta) IN
  FinishD(MAdd(ToV(x, o, "sum", VtoE(x, o, Z), NCol(Z)), MScale(ONE + p.eps, Z)), p, "relu", train)

(* ---- the HyperGCN reduction: each hyperedge becomes an edge between two vertices that are farthest  ----
   ---- apart along some random non-negative direction, plus (med) edges from both to all the others  ---- *)
TIE == 64
Below(F, a, b) == /\ \A j \in 1..Len(F[a + 1]) : F[a + 1][j] <= F[b + 1][j] + TIE
                  /\ \E j \in 1..Len(F[a + 1]) : F[a + 1][j] + TIE < F[b + 1][j]
AllTied(F, S) == \A a, b \in S : ~Below(F, a, b) /\ ~Below(F, b, a) /\ \A j \in 1..Len(F[a + 1]) : Abs(F[a + 1][j] - F[b + 1][j]) <= TIE
Ends(F, S) == {q \in S \X S : /\ (q[1] # q[2] \/ AllTied(F, S))
                              /\ \A x \in S : ~Below(F, q[1], x) /\ ~Below(F, x, q[2])}
ReduceEdge(q, S, med) ==
  LET n == Cardinality(S)
      k == Div(ONE, (IF med THEN 2 * n - 3 ELSE n) * ONE)
      mids == IF med THEN SetToSeq(S \ {q[1], q[2]}) ELSE <<>>
  IN (IF q[1] = q[2] THEN <<>> ELSE <<<<q[1], q[2], k>>>>)
     \o [i \in 1..(2 * Len(mids)) |-> <<IF i % 2 = 1 THEN q[1] ELSE q[2], mids[(i + 1) \div 2], k>>]
RECURSIVE Reductions(_, _, _, _, _)
Reductions(gs, o, F, med, i) ==
  IF i > Len(o) THEN gs
  ELSE LET S == Range(o[i][2]) IN
       Reductions({GAdd(g, ReduceEdge(q, S, med), "sum") : g \in gs, q \in Ends(F, S)}, o, F, med, i + 1)
HyperGraphs(x, o, F, med) == Reductions({NewGraph("G", 0, x.nv, FALSE)}, o, F, med, 1)
(* the results a HyperGCN layer may give, on the graph g (a set of one) or on a fresh reduction *)
HyperGCNConvs(p, x, o, X, gs, med, train) ==
  LET Z == Linear(X, p.theta) IN
  {FinishD(Apply(GLapGCN(g), Z), p, "relu", train) : g \in (IF gs = {} THEN HyperGraphs(x, o, Z, med) ELSE gs)}

Conv(kind, p, x, o, X, train) ==
  CASE kind = "GCNConv" -> GCNConv(p, x, X, train)
    [] kind = "GraphSAGEConv" -> SAGEConv(p, x, X, train)
    [] kind = "GATConv" -> GATConv(p, x, X, train)
    [] kind = "GINConv" -> GINConv(p, x, X, train)
    [] kind = "HGNNConv" -> HGNNConv(p, x, o, X, train)
    [] kind = "HGNNPConv" -> HGNNPConv(p, x, o, X, train)
    [] kind = "JHConv" -> JHConv(p, x, o, X, train)
    [] kind = "HNHNConv" -> HNHNConv(p, x, o, X, train)
    [] kind = "UniGCNConv" -> UniGCNConv(p, x, o, X, train)
    [] kind = "UniGATConv" -> UniGATConv(p, x, o, X, train)
    [] kind = "UniSAGEConv" -> UniSAGEConv(p, x, o, X, train)
    [] kind = "UniGINConv" -> UniGINConv(p, x, o, X, train)
    [] kind = "MLP" -> MLP(p, X, train)
    [] kind = "Discriminator" -> TwoBlocks(p, "leaky", 10486, "sigmoid", X, train)
    [] kind = "Decoder" -> TwoBlocks(p, "relu", 0, "tanh", X, train)

(* ---- several heads ---- *)
ReadOut(how, Xs) ==
  LET n == Len(Xs)
      sum == LET RECURSIVE S(_)
                 S(k) == IF k = 1 THEN Xs[1] ELSE MAdd(S(k - 1), Xs[k])
             IN S(n)
  IN CASE how = "concat" -> Hcat(Xs)
       [] how = "sum" -> sum
       [] how = "mean" -> Each(sum, LAMBDA v : IF v >= 0 THEN v \div n ELSE -((-v) \div n))
       [] how = "max" -> TLCEval([i \in 1..Len(Xs[1]) |-> [j \in 1..Len(Xs[1][i]) |-> Max({Xs[k][i][j] : k \in 1..n})]])
Heads(kind, ps, how, x, o, X, train) == ReadOut(how, [k \in 1..Len(ps) |-> Conv(kind, ps[k], x, o, X, train)])

-----------------------------------------------------------------------------
(* models: p.kind is the kind of their convolutions, p.layers the parameters *)
RECURSIVE Stack(_, _, _, _, _, _, _)
Stack(kind, ps, x, o, X, train, i) == IF i > Len(ps) THEN X ELSE Stack(kind, ps, x, o, Conv(kind, ps[i], x, o, X, train), train, i + 1)
Attention(p, x, o, X, train) ==
  LET H == Heads(p.conv, p.heads, "concat", x, o, Drop(X, p.drop, train), train) IN
  Conv(p.conv, p.out, x, o, Drop(H, p.drop, train), train)
(* the sum of one linear prediction per depth, the input included *)
RECURSIVE GINSum(_, _, _, _, _)
GINSum(p, g, X, train, i) ==
  LET here == Linear(X, p.pred[i]) IN
  IF i > Len(p.layers) THEN here ELSE MAdd(here, GINSum(p, g, GINConv(p.layers[i], g, X, train), train, i + 1))
(* collaborative filtering: the mean over all depths *)
MeanOf(Xs) == ReadOut("mean", Xs)
RECURSIVE LightLayers(_, _, _)
LightLayers(L, X, n) == IF n = 0 THEN <<X>> ELSE <<X>> \o LightLayers(L, Apply(L, X), n - 1)
LightGCN(p, g, train) ==
  LET L == BLapGCN(g) IN
  MeanOf(LightLayers(IF train /\ p.drop = 16 THEN Each(L, LAMBDA v : 0) ELSE L, Vcat(p.u, p.i), p.n))
SLOPE == 209715                          \* 0.2
LenSq(r) == DotS(r, r)
SmallRow(r) == LenSq(r) < 4096 /\ \E j \in 1..Len(r) : r[j] # 0    \* too short to be normalised accurately
UnitRows(X) == TLCEval([i \in 1..Len(X) |-> LET q == Sqrt(LenSq(X[i])) IN
                 TLCEval([j \in 1..Len(X[i]) |-> IF q = 0 THEN 0 ELSE Div(X[i][j], q)])])
Bi(p, k, X, G, jump, train) ==
  LET s == Each(IF jump THEN MAdd(Linear(G, p.gc[k]), X) ELSE Linear(G, p.gc[k]), LAMBDA v : Leaky(v, SLOPE))
      b == Each(Linear(MulEach(X, G), p.bi[k]), LAMBDA v : Leaky(v, SLOPE))
  IN Drop(MAdd(s, b), p.drop, train)
(* op(X) is the propagation; result: the embeddings of all depths, and whether they can be compared *)
RECURSIVE BiLayers(_, _, _, _, _, _)
BiLayers(p, Op(_), X, jump, train, k) ==
  IF k > p.n THEN [xs |-> <<X>>, ok |-> TRUE]
  ELSE LET Y == Bi(p, k, X, Op(X), jump, train)
           r == BiLayers(p, Op, UnitRows(Y), jump, train, k + 1)
       IN [xs |-> <<X>> \o r.xs, ok |-> r.ok /\ \A i \in 1..Len(Y) : ~SmallRow(Y[i])]
NGCF(p, g, train) ==
  LET L == BLapGCN(g) IN BiLayers(p, LAMBDA X : Apply(L, X), Vcat(p.u, p.i), FALSE, train, 1)
DHCF(p, hu, ou, hi, oi, train) ==
  LET A == HLhgnn(hu, ou)  B == HLhgnn(hi, oi)  nu == hu.nv IN
  BiLayers(p, LAMBDA X : Vcat(Apply(A, SubSeq(X, 1, nu)), Apply(B, SubSeq(X, nu + 1, Len(X)))), Vcat(p.u, p.i), TRUE, train, 1)
(* cascade over a bipartite graph: depth k updates U (odd k) or V (even k) from the other side *)
RECURSIVE Cascade(_, _, _, _, _, _)
Cascade(p, g, U, W, train, k) ==
  IF k > Len(p.layers) THEN U
  ELSE LET T == Each(Pass(g, <<>>, IF k % 2 = 1 THEN "v2u" ELSE "u2v", "sum", Linear(IF k % 2 = 1 THEN W ELSE U, p.layers[k])), Tanh)
           Y == IF p.dec = <<>> THEN T ELSE Conv("Decoder", p.dec[k], g, <<>>, T, train)
       IN IF k % 2 = 1 THEN Cascade(p, g, Y, W, train, k + 1) ELSE Cascade(p, g, U, Y, train, k + 1)

Model(kind, p, x, o, X, train) ==
  CASE kind = "stack" -> Stack(p.conv, p.layers, x, o, X, train, 1)
    [] kind = "attention" -> Attention(p, x, o, X, train)
    [] kind = "gin" -> GINSum(p, x, X, train, 1)

(* HyperGCN with its graph computed once (fast) or by every layer: the set of possible outputs *)
HyperGCNFrom(p, x, o, X, gs, train) ==
  UNION {HyperGCNConvs(p.layers[2], x, o, Y, gs, p.med, train) : Y \in HyperGCNConvs(p.layers[1], x, o, X, gs, p.med, train)}

-----------------------------------------------------------------------------
(* losses *)
Quot(a, n) == IF a >= 0 THEN a \div n ELSE -((-a) \div n)
BPR(alpha, beta, pos, neg) ==
  Quot(Sum([i \in 1..Len(pos) |-> Softplus(Mul(beta, neg[i]) - Mul(alpha, pos[i]))]), Len(pos))
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN ONE ELSE Mul(x, Pow(x, k - 1))
Reg(pw, Xs) == Sum([k \in 1..Len(Xs) |-> Quot(Quot(Sum([i \in 1..Len(Xs[k]) |-> Sum([j \in 1..Len(Xs[k][i]) |-> Pow(Xs[k][i][j], pw)])]), Len(Xs[k])), pw)])
=============================================================================
