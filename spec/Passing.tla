------------------------------- MODULE Passing -------------------------------
(***************************************************************************)
(* Message passing over a weighted connection relation.                    *)
(*   conn : set of <<receiver, sender>> (0-based)                          *)
(*   wt   : function conn -> weight                                        *)
(* Agg(...) is the r x d result for feature matrix X (one row per sender). *)
(***************************************************************************)
EXTENDS Hyper

Aggrs == {"mean", "sum", "softmax_then_sum"}

(* one receiver: S its connections, div the divisor of the mean (0 divides by the weights used) *)
AggRow(d, S, wt, X, aggr, hasdiv, div) ==
  IF S = {} THEN [j \in 1..d |-> 0]
  ELSE LET raw(q) == [j \in 1..d |-> SumOver(S, LAMBDA c : Mul(q[c], X[c[2] + 1][j]))] IN
       CASE aggr = "sum" -> raw(wt)
         [] aggr = "mean" ->
              LET k == Inv(IF hasdiv THEN div ELSE SumOver(S, LAMBDA c : wt[c]))
                  p == TLCEval(raw(wt))
              IN [j \in 1..d |-> Mul(k, p[j])]
         [] aggr = "softmax_then_sum" ->
              LET top == Max({wt[c] : c \in S})
                  e == TLCEval([c \in S |-> Exp(wt[c] - top)])
                  z == SumOver(S, LAMBDA c : e[c])
              IN raw(TLCEval([c \in S |-> Div(e[c], z)]))
Of(conn, i) == {c \in conn : c[1] = i}
Agg(r, d, conn, wt, X, aggr, dv) ==
  TLCEval([i \in 1..r |-> TLCEval(AggRow(d, Of(conn, i - 1), wt, X, aggr, Len(dv) > 0, IF Len(dv) > 0 THEN dv[i] ELSE 0))])

(* caller-supplied weights: ws is a sequence of <<a, b, w>> giving the weight of
   each reported connection; flip tells whether <<a, b>> is <<sender, receiver>> *)
FromList(ws, flip) ==
  LET k(i) == IF flip THEN <<ws[i][2], ws[i][1]>> ELSE <<ws[i][1], ws[i][2]>>
      dom == {k(i) : i \in 1..Len(ws)}
  IN TLCEval([p \in dom |-> ws[CHOOSE i \in 1..Len(ws) : k(i) = p][3]])
FromConn(conn, f(_)) == TLCEval([p \in conn |-> f(p)])

NCol(X) == IF Len(X) = 0 THEN 0 ELSE Len(X[1])

(* the parts of one stage: number of receivers, connections, their weights and, if the mean
   does not divide by the weights, the divisors *)
(* graphs: receivers of v2v.  For "dst2src" vertex a receives from b along the edge
   a -> b; for "src2dst" b receives from a.  In an undirected graph every vertex
   receives from its neighbours; a caller-supplied weight belongs to the message
   from the reported source to the reported destination.                           *)
GParts(g, dir, hasw, ws) ==
  LET conn0 == GDirected(g)
      flip == dir = "src2dst" \/ g.kind = "G"
      conn == IF flip THEN {<<p[2], p[1]>> : p \in conn0} ELSE conn0
      wt == IF hasw THEN FromList(ws, flip)
            ELSE FromConn(conn, LAMBDA p : IF flip THEN GW(g, p[2], p[1]) ELSE GW(g, p[1], p[2]))
  IN [r |-> g.nv, conn |-> conn, wt |-> wt, dv |-> <<>>]
(* bipartite: v2u receivers are U vertices, u2v receivers are V vertices *)
BParts(g, nm, hasw, ws) ==
  LET flip == nm = "u2v"
      conn == IF flip THEN {<<p[2], p[1]>> : p \in DOMAIN g.w} ELSE DOMAIN g.w
      wt == IF hasw THEN FromList(ws, flip)
            ELSE FromConn(conn, LAMBDA p : IF flip THEN g.w[<<p[2], p[1]>>] ELSE g.w[p])
  IN [r |-> IF flip THEN g.nv ELSE g.nu, conn |-> conn, wt |-> wt, dv |-> <<>>]
(* hypergraph: aggregation to hyperedges; connections reported as <<v, e, w>> *)
V2EParts(h, ord, hasw, ws) ==
  LET conn == {<<p[2], p[1]>> : p \in HConn(h, ord)}
  IN [r |-> Len(ord), conn |-> conn, wt |-> IF hasw THEN FromList(ws, TRUE) ELSE FromConn(conn, LAMBDA p : ONE), dv |-> <<>>]
(* built-in mean divides by the weighted degree, because hyperedge messages already
   carry the hyperedge weight; caller-supplied weights are normalised by their sum *)
E2VParts(h, ord, hasw, ws) ==
  LET conn == HConn(h, ord)
  IN [r |-> h.nv, conn |-> conn, wt |-> IF hasw THEN FromList(ws, FALSE) ELSE FromConn(conn, LAMBDA p : ONE), dv |-> IF hasw THEN <<>> ELSE HDv(h, ord)]

StageRun(q, d, X, aggr) == Agg(q.r, d, q.conn, q.wt, X, aggr, q.dv)
GPass(g, dir, aggr, X, hasw, ws) == StageRun(GParts(g, dir, hasw, ws), NCol(X), X, aggr)
BPass(g, nm, aggr, X, hasw, ws) == StageRun(BParts(g, nm, hasw, ws), NCol(X), X, aggr)
HV2EAgg(h, ord, aggr, X, hasw, ws) == StageRun(V2EParts(h, ord, hasw, ws), NCol(X), X, aggr)
HE2VAgg(h, ord, aggr, Y, d, hasw, ws) == StageRun(E2VParts(h, ord, hasw, ws), d, Y, aggr)
HV2EUpd(h, ord, Y, hasw, ew) ==
  TLCEval([i \in 1..Len(ord) |-> LET k == IF hasw THEN ew[i] ELSE HW(h, ord, i)
                                 IN TLCEval([j \in 1..NCol(Y) |-> Mul(k, Y[i][j])])])

(* a: [nm, aggr, aggr2, dir, X, hasw, ws, hasew, ew, hasw2, ws2] *)
PassResult(x, ord, a) ==
  CASE a.nm = "v2v_g" -> GPass(x, a.dir, a.aggr, a.X, a.hasw, a.ws)
    [] a.nm \in {"u2v", "v2u"} -> BPass(x, a.nm, a.aggr, a.X, a.hasw, a.ws)
    [] a.nm = "v2e_agg" -> HV2EAgg(x, ord, a.aggr, a.X, a.hasw, a.ws)
    [] a.nm = "v2e_upd" -> HV2EUpd(x, ord, a.X, a.hasew, a.ew)
    [] a.nm = "v2e" -> HV2EUpd(x, ord, HV2EAgg(x, ord, a.aggr, a.X, a.hasw, a.ws), a.hasew, a.ew)
    [] a.nm = "e2v_agg" -> HE2VAgg(x, ord, a.aggr, a.X, NCol(a.X), a.hasw, a.ws)
    [] a.nm = "e2v_upd" -> a.X
    [] a.nm = "e2v" -> HE2VAgg(x, ord, a.aggr, a.X, NCol(a.X), a.hasw, a.ws)
    [] a.nm = "v2v_h" -> HE2VAgg(x, ord, a.aggr2,
                                 HV2EUpd(x, ord, HV2EAgg(x, ord, a.aggr, a.X, a.hasw, a.ws), a.hasew, a.ew),
                                 NCol(a.X), a.hasw2, a.ws2)

(* one stage with dropped connections: every receiver aggregates over some of its connections
   (all of them at rate 0, none at rate 1).  A mean over built-in weights keeps the divisor of
   the whole, so that dropping only takes messages away; all other averages are over what is left.
   k scales the rows (hyperedge weights after the aggregation).                                *)
DropStageOk(q, d, X, aggr, own, rate, k, out, tol) ==
  /\ Len(out) = q.r
  /\ \A i \in 1..q.r :
       LET S == Of(q.conn, i - 1)
           div == IF Len(q.dv) > 0 THEN q.dv[i] ELSE SumOver(S, LAMBDA c : q.wt[c])
       IN \E T \in (IF rate = 0 THEN {S} ELSE IF rate = ONE THEN {{}} ELSE SUBSET S) :
            LET row == AggRow(d, T, q.wt, X, aggr, ~own, div)
            IN CloseSeq(out[i], IF Len(k) = 0 THEN row ELSE [j \in 1..d |-> Mul(k[i], row[j])], tol)
(* the passing of a with its connections dropped at rate ra (second stage of v2v_h: rb) *)
DropPassOk(x, ord, a, ra, rb, out) ==
  LET d == NCol(a.X)
      ks == [i \in 1..Len(ord) |-> IF a.hasew THEN a.ew[i] ELSE HW(x, ord, i)]
  IN CASE a.nm = "v2v_g" -> DropStageOk(GParts(x, a.dir, a.hasw, a.ws), d, a.X, a.aggr, a.hasw, ra, <<>>, out, 256)
       [] a.nm \in {"u2v", "v2u"} -> DropStageOk(BParts(x, a.nm, a.hasw, a.ws), d, a.X, a.aggr, a.hasw, ra, <<>>, out, 256)
       [] a.nm = "v2e_agg" -> DropStageOk(V2EParts(x, ord, a.hasw, a.ws), d, a.X, a.aggr, a.hasw, ra, <<>>, out, 256)
       [] a.nm = "v2e" -> DropStageOk(V2EParts(x, ord, a.hasw, a.ws), d, a.X, a.aggr, a.hasw, ra, ks, out, 256)
       [] a.nm \in {"e2v_agg", "e2v"} -> DropStageOk(E2VParts(x, ord, a.hasw, a.ws), d, a.X, a.aggr, a.hasw, ra, <<>>, out, 256)
       [] a.nm = "v2v_h" ->     \* the first stage drops nothing or everything
            LET Y == IF ra = ONE THEN [i \in 1..Len(ord) |-> [j \in 1..d |-> 0]]
                     ELSE HV2EUpd(x, ord, HV2EAgg(x, ord, a.aggr, a.X, a.hasw, a.ws), a.hasew, a.ew)
            IN DropStageOk(E2VParts(x, ord, a.hasw2, a.ws2), d, Y, a.aggr2, a.hasw2, rb, <<>>, out, 256)

(* spectral operators *)
SmoothMat(x, ord, nm) ==
  CASE nm = "L_GCN" -> IF x.kind = "B" THEN BLapGCN(x) ELSE GLapGCN(x)
    [] nm = "L_HGNN" -> HLhgnn(x, ord)
    [] nm = "L" -> GLap(x)
    [] nm = "L_sym" -> IF x.kind = "H" THEN HLsym(x, ord) ELSE GLapSym(x)
    [] nm = "L_rw" -> IF x.kind = "H" THEN HLrw(x, ord) ELSE GLapRw(x)
Apply(M, X) == MM(M, X, Len(M), Len(X), NCol(X))
=============================================================================
