-------------------------------- MODULE Hyper --------------------------------
(***************************************************************************)
(* State and views of hypergraphs.  A hypergraph is a record               *)
(*   [kind |-> "H", nv, vw, gs]                                            *)
(* vw: sequence of vertex weights; gs: group name -> (vertex set -> weight)*)
(***************************************************************************)
EXTENDS Graphs

NewHyper(nv, vw) == [kind |-> "H", nv |-> nv, vw |-> vw, gs |-> EmptyFn]
UnitWeights(nv) == [i \in 1..nv |-> ONE]

HAddOne(h, grp, S, wt, op) ==
  LET old == IF grp \in DOMAIN h.gs THEN h.gs[grp] ELSE EmptyFn
      new == Put(old, S, IF S \in DOMAIN old THEN MergeW(op, old[S], wt) ELSE wt)
  IN [h EXCEPT !.gs = Put(h.gs, grp, new)]
RECURSIVE HAddFrom(_, _, _, _, _)
HAddFrom(h, es, op, grp, i) ==
  IF i > Len(es) THEN h
  ELSE HAddFrom(TLCEval(HAddOne(h, grp, Range(es[i][1]), es[i][2], op)), es, op, grp, i + 1)
HAdd(h, es, op, grp) == HAddFrom(h, es, op, grp, 1)

HRemoveIn(h, grps, es) ==
  LET ks == {Range(es[i]) : i \in 1..Len(es)} IN
  [h EXCEPT !.gs = [n \in DOMAIN h.gs |-> IF n \in grps THEN Without(h.gs[n], ks) ELSE h.gs[n]]]
HRemoveGroup(h, grp) == [h EXCEPT !.gs = Without(h.gs, {grp})]
HClear(h) == [h EXCEPT !.gs = EmptyFn, !.vw = UnitWeights(h.nv)]
HNumE(h) == SumOver(DOMAIN h.gs, LAMBDA n : Cardinality(DOMAIN h.gs[n]))
HInRange(h, vs) == \A i \in 1..Len(vs) : vs[i] >= 0 /\ vs[i] < h.nv

(* the incident order of hyperedges used by every view: ord is a sequence of
   <<group, vertex sequence>>; grps is the set of groups covered            *)
HOrdOk(h, ord, grps) ==
  /\ grps \subseteq DOMAIN h.gs
  /\ {<<ord[i][1], Range(ord[i][2])>> : i \in 1..Len(ord)}
       = UNION {{<<n, S>> : S \in DOMAIN h.gs[n]} : n \in grps}
  /\ Len(ord) = SumOver(grps, LAMBDA n : Cardinality(DOMAIN h.gs[n]))
  /\ \A i \in 1..Len(ord) : Len(ord[i][2]) = Cardinality(Range(ord[i][2]))

HW(h, ord, j) == h.gs[ord[j][1]][Range(ord[j][2])]
HInc(h, ord) == Mat(h.nv, Len(ord), LAMBDA i, j : IF (i - 1) \in Range(ord[j][2]) THEN ONE ELSE 0)
HWe(h, ord) == Vec(Len(ord), LAMBDA j : HW(h, ord, j))
HDv(h, ord) == Vec(h.nv, LAMBDA i : SumOver({j \in 1..Len(ord) : (i - 1) \in Range(ord[j][2])}, LAMBDA j : HW(h, ord, j)))
HDe(h, ord) == Vec(Len(ord), LAMBDA j : Len(ord[j][2]) * ONE)
(* H We De^-1 H^T *)
HCore(h, ord) ==
  LET m == Len(ord)
      c == Vec(m, LAMBDA j : Mul(HW(h, ord, j), Inv(Len(ord[j][2]) * ONE)))
  IN Mat(h.nv, h.nv, LAMBDA a, b : SumOver({j \in 1..m : {a - 1, b - 1} \subseteq Range(ord[j][2])}, LAMBDA j : c[j]))
HLhgnn(h, ord) == LET d == InvSqrtVec(HDv(h, ord)) IN ScaleCols(ScaleRows(d, HCore(h, ord)), d)
HLsym(h, ord) == MSub(Ident(h.nv), HLhgnn(h, ord))
HLrw(h, ord) == MSub(Ident(h.nv), ScaleRows(InvVec(HDv(h, ord)), HCore(h, ord)))

EdgeSeqMatch(h, ord, es) ==
  /\ Len(es) = Len(ord)
  /\ \A i \in 1..Len(ord) : /\ Len(es[i][1]) = Cardinality(Range(ord[i][2]))
                            /\ Range(es[i][1]) = Range(ord[i][2])
                            /\ Close(es[i][2], HW(h, ord, i), 8)
HConn(h, ord) == {<<v, e>> \in (0..(h.nv - 1)) \X (0..(Len(ord) - 1)) : v \in Range(ord[e + 1][2])}

HViewOk(h, ord, nm, arg, v) ==
  LET n == h.nv  m == Len(ord)
      diag(d, t) == CloseMat(v, DiagM(d), t)
  IN
  CASE nm = "v" -> IotaMatch(n, v)
    [] nm = "num_v" -> v = n
    [] nm = "num_e" -> v = m
    [] nm = "num_groups" -> v = Cardinality(DOMAIN h.gs)
    [] nm = "group_names" -> SetMatch(DOMAIN h.gs, v)
    [] nm = "v_weight" -> CloseSeq(v, h.vw, 8)
    [] nm = "e" -> EdgeSeqMatch(h, ord, v)
    [] nm \in {"H", "H_v2e", "H_e2v"} -> CloseMat(v, HInc(h, ord), 8)
    [] nm = "H_T" -> CloseMat(v, Transpose(HInc(h, ord), n, m), 8)
    [] nm = "W_v" -> diag(h.vw, 8)
    [] nm = "W_e" -> diag(HWe(h, ord), 8)
    [] nm = "D_v" -> diag(HDv(h, ord), 16)
    [] nm = "D_e" -> diag(HDe(h, ord), 8)
    [] nm = "D_v_neg_1" -> diag(InvVec(HDv(h, ord)), 32)
    [] nm = "D_v_neg_1_2" -> diag(InvSqrtVec(HDv(h, ord)), 64)
    [] nm = "D_e_neg_1" -> diag(InvVec(HDe(h, ord)), 32)
    [] nm = "deg_v" -> CloseSeq(v, HDv(h, ord), 16)
    [] nm = "deg_e" -> CloseSeq(v, HDe(h, ord), 8)
    [] nm = "nbr_e" -> SetMatch({e \in 0..(m - 1) : arg[1] \in Range(ord[e + 1][2])}, v)
    [] nm = "nbr_v" -> SetMatch(Range(ord[arg[1] + 1][2]), v)
    [] nm \in {"v2e_conn", "e2v_conn"} -> ConnMatch(HConn(h, ord), LAMBDA a, b : ONE, v)
    [] nm = "L_sym" -> CloseMat(v, HLsym(h, ord), T1)
    [] nm = "L_rw" -> CloseMat(v, HLrw(h, ord), T1)
    [] nm = "L_HGNN" -> CloseMat(v, HLhgnn(h, ord), T1)

(* content as reported: gl is a sequence of <<group name, seq of <<vs, w>>>> *)
HContentMatch(h, gl) ==
  /\ Len(gl) = Cardinality(DOMAIN h.gs)
  /\ {gl[i][1] : i \in 1..Len(gl)} = DOMAIN h.gs
  /\ \A i \in 1..Len(gl) :
       LET f == h.gs[gl[i][1]]  es == gl[i][2] IN
       /\ Len(es) = Cardinality(DOMAIN f)
       /\ {Range(es[j][1]) : j \in 1..Len(es)} = DOMAIN f
       /\ \A j \in 1..Len(es) : /\ Close(es[j][2], f[Range(es[j][1])], 8)
                                /\ Len(es[j][1]) = Cardinality(Range(es[j][1]))
=============================================================================
