---------------------------- MODULE Trace_Layers ----------------------------
(***************************************************************************)
(* Verdicts for recorded calls of layers, models and losses.  The state    *)
(* holds what a HyperGCN model may have cached: a set of graphs, narrowed  *)
(* by every observed output.                                               *)
(***************************************************************************)
EXTENDS Layers, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, s
Z0 == [cached |-> {}]
C(name, ok) == IF ok THEN {} ELSE {name}
Ver(ns, bad) == [s |-> ns, bad |-> bad]
TOL == 384
Flags(e) == C("inputs-modified", e.pureX) \cup C("structure-modified", e.pureS) \cup C("parameters-modified", e.pureP)
            \cup C("not-deterministic", e.again) \cup C("declared-modules", e.has = e.decl)
Shape(out, n, d) == Len(out) = n /\ \A i \in 1..Len(out) : Len(out[i]) = d
Equal(out, Y) == C("output", CloseMat(out, Y, TOL))
(* partial dropout: every entry is zero or scaled up *)
Entry(y, o, rate) == Close(o, 0, 8) \/ Close(o, Quot(y * 4, 16 - rate) * 4, 4 * TOL)
PartDrop(out, Y, rate) ==
  LET pos == {<<i, j>> \in (1..Len(Y)) \X (1..NCol(Y)) : Abs(Y[i][j]) > 8 * TOL}
      z == Cardinality({q \in pos : out[q[1]][q[2]] = 0})
      n == Cardinality(pos)
      d == 16 * z - n * rate IN
  C("output", Shape(out, Len(Y), NCol(Y)) /\ \A i \in 1..Len(Y), j \in 1..NCol(Y) : Entry(Y[i][j], out[i][j], rate))
  \cup C("dropout-rate", n < 32 \/ d * d <= 49 * n * rate * (16 - rate) + 2048)
Struct(e) == IF e.kind = "H" THEN MkHyper(e) ELSE MkGraph(e)
OrdOf(e) == IF e.kind = "H" THEN Ord(e) ELSE <<>>

Layer(st, e) ==
  IF ~e.ok THEN Ver(st, {"refused"})
  ELSE LET x == Struct(e.st)  o == OrdOf(e.st) IN
       IF e.kind = "HyperGCNConv"
       THEN LET gs == IF e.given THEN {MkGraph(e.g)} ELSE {} IN
            Ver(st, Flags(e) \cup C("output", \E Y \in HyperGCNConvs(e.p, x, o, e.X, gs, e.med, e.train) : CloseMat(e.out, Y, TOL)))
       ELSE LET Y == Conv(e.kind, e.p, x, o, e.X, e.train) IN
            Ver(st, Flags(e) \cup (IF e.train /\ e.p.drop \in 1..15 /\ ~e.p.last THEN PartDrop(e.out, Y, e.p.drop) ELSE Equal(e.out, Y)))
(* relabelled vertices: out2 is the output on the relabelled structure and features, perm the relabelling *)
Permuted(st, e) ==
  Ver(st, C("not-equivariant", Len(e.out) = Len(e.out2) /\ \A i \in 1..Len(e.out) : CloseSeq(e.out2[e.perm[i] + 1], e.out[i], 64)))
HeadsEv(st, e) ==
  IF ~e.ok THEN Ver(st, C("refused", e.how \notin {"concat", "mean", "max", "sum"}))
  ELSE LET x == Struct(e.st)  o == OrdOf(e.st) IN
       Ver(st, Flags(e) \cup C("unknown-readout", e.how \in {"concat", "mean", "max", "sum"})
                        \cup Equal(e.out, Heads(e.kind, e.p, e.how, x, o, e.X, e.train)))
ModelEv(st, e) ==
  IF ~e.ok THEN Ver(st, {"refused"})
  ELSE LET x == Struct(e.st)  o == OrdOf(e.st) IN
       Ver(st, Flags(e) \cup Equal(e.out, Model(e.kind, e.p, x, o, e.X, e.train)))
(* recommenders: out is <<users, items>> *)
Rec(st, e) ==
  IF ~e.ok THEN Ver(st, {"refused"})
  ELSE LET split(Y) == C("output", CloseMat(e.out[1] \o e.out[2], Y, TOL) /\ Len(e.out[1]) = Len(e.p.u)) IN
       Ver(st, Flags(e) \cup
         IF e.kind = "LightGCN" THEN split(LightGCN(e.p, MkGraph(e.st), e.train))
         ELSE LET r == IF e.kind = "NGCF" THEN NGCF(e.p, MkGraph(e.st), e.train)
                       ELSE DHCF(e.p, MkHyper(e.st), Ord(e.st), MkHyper(e.st2), Ord(e.st2), e.train) IN
              IF r.ok THEN split(MeanOf(r.xs)) ELSE {})
(* bipartite cascades; ret is what training returned (<<>>: forward only) *)
CascadeEv(st, e) ==
  IF ~e.ok THEN Ver(st, {"refused"})
  ELSE LET Y == Cascade(e.p, MkGraph(e.st), e.XU, e.XV, e.train, 1) IN
       Ver(st, Flags(e) \cup Equal(e.out, Y) \cup C("training-result", e.ret = <<>> \/ CloseMat(e.ret, Y, TOL))
               \cup C("trained-layers",
                    Len(e.moved) = Len(e.p.layers) /\ (\A k \in 1..Len(e.moved) :
                      (e.epochs = 0 => ~e.moved[k]) /\ ((e.epochs > 0 /\ e.live[k]) => e.moved[k]))))
(* HyperGCN keeps its first graph (fast) *)
HyperGCN(st, e) ==
  IF ~e.ok THEN Ver(st, {"refused"})
  ELSE LET x == MkHyper(e.st)  o == Ord(e.st)
           cand == IF ~e.p.fast THEN {} ELSE IF st.cached # {} THEN st.cached ELSE HyperGraphs(x, o, e.X, e.p.med)
           fits(gs) == \E Y \in HyperGCNFrom(e.p, x, o, e.X, gs, e.train) : CloseMat(e.out, Y, TOL)
           left == {g \in cand : fits({g})} IN
       Ver([st EXCEPT !.cached = IF left = {} THEN cand ELSE left],
           Flags(e) \cup C("output", IF e.p.fast THEN left # {} ELSE fits({})))
Loss(st, e) ==
  Ver(st, IF ~e.ok THEN C("refused", e.kind = "badbpr")
          ELSE C("loss", CASE e.kind = "bpr" -> Close(e.val, BPR(e.alpha, e.beta, e.pos, e.neg), 64)
                           [] e.kind = "reg" -> Close(e.val, Mul(e.wd, Reg(e.pw, e.embs)), 64)
                           [] e.kind = "badbpr" -> FALSE) \cup C("inputs-modified", e.pureX))
(* freshly made recommenders: Xavier bounds (b, on |weights|), zero biases; zmax: largest absolute bias *)
Fresh(st, e) == Ver(st, C("initial-weights", \A i \in 1..Len(e.max) : e.max[i] <= e.bound[i] + 8 /\ e.max[i] > e.bound[i] \div 3)
                        \cup C("initial-biases", e.zmax = 0)
                        \cup C("initial-spread", e.var = <<>> \/ \A i \in 1..Len(e.var) : e.var[i] \in 7340..13631)
                        \cup C("kept-by-reset", e.changed))
(* e.hits of e.n training draws equal the result with everything dropped, which has probability e.num / e.den (8 sigma) *)
RateEv(st, e) ==
  IF ~e.ok THEN Ver(st, {"refused"})
  ELSE LET d == e.den * e.hits - e.n * e.num IN
       Ver(st, C("dropout-rate", (Abs(d) \div e.den) * (Abs(d) \div e.den) <= ((((64 * e.n * e.num) \div e.den) * (e.den - e.num)) \div e.den) + 9))
(* an option outside the documented ones must be refused, by name e.what *)
Refused(st, e) == Ver(st, C("accepted-unsupported-option", ~e.ok))
Step(st, e) ==
  CASE e.op = "layer" -> Layer(st, e)
    [] e.op = "permuted" -> Permuted(st, e)
    [] e.op = "heads" -> HeadsEv(st, e)
    [] e.op = "model" -> ModelEv(st, e)
    [] e.op = "rec" -> Rec(st, e)
    [] e.op = "cascade" -> CascadeEv(st, e)
    [] e.op = "hypergcn" -> HyperGCN(st, e)
    [] e.op = "loss" -> Loss(st, e)
    [] e.op = "rate" -> RateEv(st, e)
    [] e.op = "fresh" -> Fresh(st, e)
    [] e.op = "refused" -> Refused(st, e)
Report(r) == r.bad = {} \/ PrintT("FAIL " \o ToString(tr) \o " " \o ToString(l) \o " " \o ToString(r.bad))
TraceInit == tr \in 1..Len(Traces) /\ l = 1 /\ s = Z0
TraceNext == /\ l <= Len(Traces[tr].ev)
             /\ LET r == Step(s, Traces[tr].ev[l]) IN Report(r) /\ s' = r.s
             /\ l' = l + 1
             /\ tr' = tr
=============================================================================
