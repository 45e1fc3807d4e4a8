-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* A heap of structures and a file store, with one transition per public   *)
(* call.  Calls are records with field op; see Accepts / Effect.  Every    *)
(* call is atomic (the library is sequential): its linearization point is  *)
(* its return.  A call that must be rejected is a stuttering step.         *)
(***************************************************************************)
EXTENDS Passing

EmptyStore == [heap |-> EmptyFn, files |-> EmptyFn]
Obj(s, o) == s.heap[o]
SetObj(s, o, x) == [s EXCEPT !.heap = Put(s.heap, o, x)]

-----------------------------------------------------------------------------
(* conversions *)
RECURSIVE AdjPairs(_, _)
AdjPairs(adj, i) ==
  IF i > Len(adj) THEN <<>>
  ELSE [j \in 1..(IF Len(adj[i]) = 0 THEN 0 ELSE Len(adj[i]) - 1) |-> <<adj[i][1], adj[i][j + 1], ONE>>] \o AdjPairs(adj, i + 1)

AllOnes(es) == [i \in 1..Len(es) |-> <<es[i], ONE>>]

StarGraph(h, ord) ==
  [NewGraph("G", 0, h.nv + Len(ord), FALSE) EXCEPT
     !.w = [p \in {<<c[1], h.nv + c[2]>> : c \in HConn(h, ord)} |-> ONE]]
CliqueGraph(h, ord, weighted, miu) ==
  LET cnt(a, b) == Cardinality({j \in 1..Len(ord) : {a, b} \subseteq Range(ord[j][2])})
      ps == {p \in (0..(h.nv - 1)) \X (0..(h.nv - 1)) : p[1] < p[2] /\ cnt(p[1], p[2]) > 0}
  IN [NewGraph("G", 0, h.nv, FALSE) EXCEPT !.w = [p \in ps |-> IF weighted THEN cnt(p[1], p[2]) * miu ELSE ONE]]
(* HyperGCN reduction for a one-dimensional feature f with distinct values *)
GcnPair(f, S) == LET a == CHOOSE x \in S : \A y \in S : f[x + 1] >= f[y + 1]
                     b == CHOOSE x \in S : \A y \in S : f[x + 1] <= f[y + 1]
                 IN <<a, b>>
GcnEdges(f, vs, med) ==
  LET S == Range(vs)  p == GcnPair(f, S)  n == Cardinality(S)
      k == IF med THEN Div(ONE, (2 * n - 3) * ONE) ELSE Div(ONE, n * ONE)
      mids == IF med THEN SetToSeq(S \ {p[1], p[2]}) ELSE <<>>
  IN <<<<p[1], p[2], k>>>> \o [i \in 1..(2 * Len(mids)) |->
        <<IF i % 2 = 1 THEN p[1] ELSE p[2], mids[(i + 1) \div 2], k>>]
RECURSIVE GcnAll(_, _, _, _)
GcnAll(f, ord, med, i) == IF i > Len(ord) THEN <<>> ELSE GcnEdges(f, ord[i][2], med) \o GcnAll(f, ord, med, i + 1)
GcnGraph(h, ord, f, med) == GAdd(NewGraph("G", 0, h.nv, FALSE), GcnAll(f, ord, med, 1), "sum")

(* hyperedges from a graph: one per edge; edges over the same vertex set merge by mean *)
GraphHyperedges(g) ==
  LET both == SetToSeq(DOMAIN g.w)
      es == [i \in 1..Len(both) |-> <<<<both[i][1], both[i][2]>>, g.w[both[i]]>>]
      lp == IF g.extra THEN [i \in 1..g.nv |-> <<<<i - 1>>, ONE>>] ELSE <<>>
  IN es \o lp
KHopSet(g, v, k, only) == {v} \cup (IF only THEN GWalk(g, {v}, k) ELSE UNION {GWalk(g, {v}, i) : i \in 1..k})
KHopHyperedges(g, k, only) == [i \in 1..g.nv |-> <<SetToSeq(KHopSet(g, i - 1, k, only)), ONE>>]
BiHyperedges(g, uAsV) ==
  LET n == IF uAsV THEN g.nv ELSE g.nu
      nb(x) == IF uAsV THEN {a \in 0..(g.nu - 1) : <<a, x>> \in DOMAIN g.w}
               ELSE {b \in 0..(g.nv - 1) : <<x, b>> \in DOMAIN g.w}
      xs == SetToSeq({x \in 0..(n - 1) : nb(x) # {}})
  IN [i \in 1..Len(xs) |-> <<SetToSeq(nb(xs[i])), ONE>>]
(* distances between integer feature rows *)
Dist(f, a, b, p) ==
  LET d == Len(f[1])  ds == {Abs(f[a + 1][j] - f[b + 1][j]) : j \in 1..d} IN
  CASE p = 1 -> SumOver(1..d, LAMBDA j : Abs(f[a + 1][j] - f[b + 1][j]))
    [] p = 2 -> SumOver(1..d, LAMBDA j : (f[a + 1][j] - f[b + 1][j]) * (f[a + 1][j] - f[b + 1][j]))
    [] p = 0 -> Max(ds)                         \* stands for the maximum norm
Nearest(f, v, k, p) ==          \* the k nearest rows, the row itself being at distance 0
  LET n == Len(f) IN
  {u \in 0..(n - 1) : Cardinality({x \in 0..(n - 1) : Dist(f, v, x, p) < Dist(f, v, u, p)}) < k}
KnnHyperedges(f, k) == [i \in 1..Len(f) |-> <<SetToSeq(Nearest(f, i - 1, k, 2)), ONE>>]
KnnDigraph(f, k, p, dw, inc, asSrc) ==
  LET n == Len(f)
      kk == IF inc THEN k ELSE k + 1
      pairs == {q \in (0..(n - 1)) \X (0..(n - 1)) : q[1] # q[2] /\ q[2] \in Nearest(f, q[1], kk, p)}
      real(q) == IF p = 2 THEN Sqrt(Dist(f, q[1], q[2], p) * ONE) ELSE Dist(f, q[1], q[2], p) * ONE
      wt(q) == IF dw THEN Exp(-real(q)) ELSE ONE
      key(q) == IF asSrc THEN q ELSE <<q[2], q[1]>>
  IN [NewGraph("D", 0, n, inc) EXCEPT !.w = [z \in {key(q) : q \in pairs} |-> wt(key(z))]]
BiFromHyper(h, ord, vAsU, weighted) ==
  LET m == Len(ord)
      cs == HConn(h, ord)
  IN [NewGraph("B", IF vAsU THEN h.nv ELSE m, IF vAsU THEN m ELSE h.nv, FALSE) EXCEPT
        !.w = [p \in {IF vAsU THEN c ELSE <<c[2], c[1]>> : c \in cs} |->
                 IF weighted THEN HW(h, ord, (IF vAsU THEN p[2] ELSE p[1]) + 1) ELSE ONE]]

(* restriction to the vertices vs (a set), minimum number of kept vertices mn.
   Hyperedges that restrict to the same set keep the weight of one of them, so
   the operator yields the admissible weights of each restricted hyperedge.    *)
Rank(vs, v) == Cardinality({x \in vs : x < v})
SubSet(vs, S) == {Rank(vs, v) : v \in S \cap vs}
SubGroup(vs, f, mn) == {SubSet(vs, S) : S \in {T \in DOMAIN f : Cardinality(T \cap vs) >= mn}}
SubOk(h, vs, mn, x) ==
  LET ids == SetToSortSeq(vs, LAMBDA a, b : a < b) IN
  /\ x.nv = Cardinality(vs)
  /\ DOMAIN x.gs = DOMAIN h.gs
  /\ CloseSeq(x.vw, [i \in 1..Len(ids) |-> h.vw[ids[i] + 1]], 8)
  /\ \A n \in DOMAIN h.gs :
       /\ DOMAIN x.gs[n] = SubGroup(vs, h.gs[n], mn)
       /\ \A S \in DOMAIN x.gs[n] :
            \E T \in DOMAIN h.gs[n] : SubSet(vs, T) = S /\ Close(x.gs[n][S], h.gs[n][T], 8)

(* dropping: x is y with some items removed *)
FnSub(f, g) == DOMAIN f \subseteq DOMAIN g /\ \A k \in DOMAIN f : Close(f[k], g[k], 8)
DropOk(y, grps, rate, x) ==
  IF y.kind # "H"
  THEN /\ x.kind = y.kind /\ x.nu = y.nu /\ x.nv = y.nv /\ x.extra = y.extra
       /\ FnSub(x.w, y.w)
       /\ (rate = 0 => DOMAIN x.w = DOMAIN y.w)
       /\ (rate = ONE => DOMAIN x.w = {})
  ELSE /\ x.kind = "H" /\ x.nv = y.nv /\ DOMAIN x.gs = DOMAIN y.gs /\ CloseSeq(x.vw, y.vw, 8)
       /\ \A n \in DOMAIN y.gs :
            /\ FnSub(x.gs[n], y.gs[n])
            /\ ((n \notin grps \/ rate = 0) => DOMAIN x.gs[n] = DOMAIN y.gs[n])
            /\ ((n \in grps /\ rate = ONE) => DOMAIN x.gs[n] = {})

-----------------------------------------------------------------------------
(* the structure reported in an observation *)
FromObs(ob, ext) ==
  IF ob.kind = "H"
  THEN [kind |-> "H", nv |-> ob.nv, vw |-> ob.vw,
        gs |-> TLCEval([n \in {ob.gl[i][1] : i \in 1..Len(ob.gl)} |->
                 LET es == ob.gl[CHOOSE i \in 1..Len(ob.gl) : ob.gl[i][1] = n][2] IN
                 TLCEval([S \in {Range(es[j][1]) : j \in 1..Len(es)} |->
                    es[CHOOSE j \in 1..Len(es) : Range(es[j][1]) = S][2]])])]
  ELSE LET g0 == NewGraph(ob.kind, ob.nu, ob.nv, FALSE)
           at(v) == {i \in 1..Len(ob.es) : ob.es[i][1] = v /\ ob.es[i][2] = v}
           ex == ext
           ks == {GKey(g0, ob.es[i][1], ob.es[i][2]) : i \in 1..Len(ob.es)}
           lp(k) == ex /\ k[1] = k[2] /\ ob.kind # "B"
           keep == {k \in ks : ~lp(k) \/ Cardinality(at(k[1])) > 1}
           tot(k) == SumOver({i \in 1..Len(ob.es) : GKey(g0, ob.es[i][1], ob.es[i][2]) = k}, LAMBDA i : ob.es[i][3])
       IN [g0 EXCEPT !.extra = ex, !.w = TLCEval([k \in keep |-> tot(k) - (IF lp(k) THEN ONE ELSE 0)])]

(* does the observation agree with the model's structure *)
ObsOk(x, ob) ==
  /\ x.kind = ob.kind /\ x.nv = ob.nv
  /\ IF x.kind = "H"
     THEN /\ CloseSeq(ob.vw, x.vw, 8) /\ HContentMatch(x, ob.gl) /\ ob.ne = HNumE(x)
          /\ ob.ng = Cardinality(DOMAIN x.gs)
     ELSE /\ x.nu = ob.nu /\ GEdgesMatch(x, ob.es) /\ ob.ne = GNumE(x)

ObsFor(ev, o) == ev.obs[CHOOSE i \in 1..Len(ev.obs) : ev.obs[i].o = o]

-----------------------------------------------------------------------------
(* which calls must be accepted *)
GAddAcc(g, ev) ==
  \/ Len(ev.es) = 0
  \/ /\ \A i \in 1..Len(ev.es) : GInRange(g, ev.es[i][1], ev.es[i][2])
     /\ ev.mop \in MergeOps
     /\ ev.nw = Len(ev.es)
HAddAcc(h, ev) ==
  \/ (Len(ev.es) = 0 /\ ev.nw = 0)
  \/ /\ \A i \in 1..Len(ev.es) : HInRange(h, ev.es[i][1])
     /\ ev.mop \in MergeOps
     /\ ev.nw = Len(ev.es)

Editing == {"add", "remove", "clear", "addextra", "rmextra", "rmloop", "reverse", "rmgroup"}

Accepts(s, ev) ==
  CASE ev.op = "new" ->
         IF ev.kind = "H" THEN HAddAcc(NewHyper(ev.nv, ev.vw), ev) /\ Len(ev.vw) = ev.nv /\ ev.nv > 0
         ELSE GAddAcc(NewGraph(ev.kind, ev.nu, ev.nv, ev.extra), ev) /\ ev.nv > 0
    [] ev.op = "add" ->
         IF Obj(s, ev.o).kind = "H" THEN HAddAcc(Obj(s, ev.o), ev) ELSE GAddAcc(Obj(s, ev.o), ev)
    [] ev.op = "remove" ->
         IF Obj(s, ev.o).kind = "H" THEN ~ev.og \/ ev.grp \in DOMAIN Obj(s, ev.o).gs
         ELSE \A i \in 1..Len(ev.ps) : GInRange(Obj(s, ev.o), ev.ps[i][1], ev.ps[i][2])
    [] ev.op = "load" -> ev.via \in {"any", Obj([heap |-> s.files], ev.f).kind}
    [] ev.op = "sub" -> Len(ev.vs) > 0 /\ \A i \in 1..Len(ev.vs) : ev.vs[i] >= 0 /\ ev.vs[i] < Obj(s, ev.o).nv
    [] ev.op = "drop" -> ev.ord = "uniform"
    [] ev.op = "reject" -> FALSE
    [] OTHER -> TRUE

(* the effect of an accepted call *)
Effect(s, ev) ==
  CASE ev.op = "new" ->
         SetObj(s, ev.r, IF ev.kind = "H" THEN HAdd(NewHyper(ev.nv, ev.vw), ev.es, ev.mop, "main")
                         ELSE GAdd(NewGraph(ev.kind, ev.nu, ev.nv, ev.extra), ev.es, ev.mop))
    [] ev.op = "add" ->
         SetObj(s, ev.o, IF Obj(s, ev.o).kind = "H" THEN HAdd(Obj(s, ev.o), ev.es, ev.mop, ev.grp)
                         ELSE GAdd(Obj(s, ev.o), ev.es, ev.mop))
    [] ev.op = "remove" ->
         SetObj(s, ev.o, IF Obj(s, ev.o).kind = "H"
                         THEN HRemoveIn(Obj(s, ev.o), IF ev.og THEN {ev.grp} ELSE DOMAIN Obj(s, ev.o).gs, ev.ps)
                         ELSE GRemove(Obj(s, ev.o), ev.ps))
    [] ev.op = "rmgroup" -> SetObj(s, ev.o, HRemoveGroup(Obj(s, ev.o), ev.grp))
    [] ev.op = "clear" -> SetObj(s, ev.o, IF Obj(s, ev.o).kind = "H" THEN HClear(Obj(s, ev.o)) ELSE GClear(Obj(s, ev.o)))
    [] ev.op = "addextra" -> SetObj(s, ev.o, [Obj(s, ev.o) EXCEPT !.extra = TRUE])
    [] ev.op = "rmextra" -> SetObj(s, ev.o, [Obj(s, ev.o) EXCEPT !.extra = FALSE])
    [] ev.op = "rmloop" -> SetObj(s, ev.o, GRemoveLoops(Obj(s, ev.o)))
    [] ev.op = "reverse" -> SetObj(s, ev.o, GReverse(Obj(s, ev.o)))
    [] ev.op = "switch" -> SetObj(s, ev.r, GSwitch(Obj(s, ev.o)))
    [] ev.op \in {"clone", "state", "to"} -> SetObj(s, ev.r, Obj(s, ev.o))
    [] ev.op = "save" -> [s EXCEPT !.files = Put(s.files, ev.f, Obj(s, ev.o))]
    [] ev.op = "load" -> SetObj(s, ev.r, s.files[ev.f])
    [] ev.op = "adj" -> SetObj(s, ev.r, GAdd(NewGraph(ev.kind, ev.nu, ev.nv, ev.extra), AdjPairs(ev.adj, 1), "mean"))
    [] ev.op = "star" -> SetObj(s, ev.r, StarGraph(Obj(s, ev.o), ev.ord))
    [] ev.op = "clique" -> SetObj(s, ev.r, CliqueGraph(Obj(s, ev.o), ev.ord, ev.weighted, ev.miu))
    [] ev.op = "hgcn" -> SetObj(s, ev.r, GcnGraph(Obj(s, ev.o), ev.ord, ev.f, ev.med))
    [] ev.op = "bi_from_h" -> SetObj(s, ev.r, BiFromHyper(Obj(s, ev.o), ev.ord, ev.vasu, ev.weighted))
    [] ev.op = "knn_d" -> SetObj(s, ev.r, KnnDigraph(ev.f, ev.k, ev.p, ev.dw, ev.inc, ev.assrc))
    [] ev.op = "h_from" ->        \* construct (isnew) or extend a hypergraph from another source
         LET es == CASE ev.src = "graph" -> GraphHyperedges(Obj(s, ev.o))
                     [] ev.src = "khop" -> KHopHyperedges(Obj(s, ev.o), ev.k, ev.only)
                     [] ev.src = "bi" -> BiHyperedges(Obj(s, ev.o), ev.uasv)
                     [] ev.src = "knn" -> KnnHyperedges(ev.f, ev.k)
         IN SetObj(s, ev.r, HAdd(IF ev.isnew THEN NewHyper(ev.nv, UnitWeights(ev.nv)) ELSE Obj(s, ev.r),
                                 es, "mean", ev.grp))
    [] ev.op \in {"sub", "drop"} -> SetObj(s, ev.r, FromObs(ObsFor(ev, ev.r), IF ev.op = "drop" /\ Obj(s, ev.o).kind \in {"G", "D"} THEN Obj(s, ev.o).extra ELSE FALSE))
    [] OTHER -> s

(* one item of a batch of views: [nm, arg, v, ok, g] where g indexes the group selections
   ev.sel (each [grps, ord], the hyperedge numbering used by that selection)          *)
ItemBad(x, sel, it) ==
  IF ~it.ok THEN {"refused-" \o it.nm}
  ELSE IF x.kind = "H" THEN (IF HViewOk(x, sel[it.g].ord, it.nm, it.arg, it.v) THEN {} ELSE {"view-" \o it.nm})
  ELSE IF GViewOk(x, it.nm, it.arg, it.v) THEN {} ELSE {"view-" \o it.nm}
EntriesOk(out, full, rate, fill) ==
  /\ Len(out) = Len(full)
  /\ \A i \in 1..Len(full) :
       /\ Len(out[i]) = Len(full[i])
       /\ \A j \in 1..Len(full[i]) :
            \/ full[i][j] = 0 /\ out[i][j] = 0
            \/ full[i][j] # 0 /\ rate < ONE /\ Close(out[i][j], full[i][j], 64)
            \/ full[i][j] # 0 /\ rate > 0 /\ Close(out[i][j], fill, 8)

(* clauses checked on the outcome of an accepted call, beyond the heap content *)
Outcome(s, ev) ==
  CASE ev.op = "view" ->
         LET x == Obj(s, ev.o) IN
         IF x.kind = "H"
         THEN IF ~HOrdOk(x, ev.ord, Range(ev.grps)) THEN {"order"}
              ELSE IF HViewOk(x, ev.ord, ev.nm, ev.arg, ev.v) THEN {} ELSE {"view-" \o ev.nm}
         ELSE IF GViewOk(x, ev.nm, ev.arg, ev.v) THEN {} ELSE {"view-" \o ev.nm}
    [] ev.op = "pass" ->
         LET x == Obj(s, ev.o) IN
         IF x.kind = "H" /\ ~HOrdOk(x, ev.ord, Range(ev.grps)) THEN {"order"}
         ELSE IF CloseMat(ev.out, PassResult(x, ev.ord, ev.a), 256) THEN {} ELSE {"pass-" \o ev.a.nm}
    [] ev.op = "smooth" ->
         LET x == Obj(s, ev.o) IN
         IF x.kind = "H" /\ ~HOrdOk(x, ev.ord, Range(ev.grps)) THEN {"order"}
         ELSE LET Y == Apply(IF ev.mat # <<>> THEN ev.mat ELSE SmoothMat(x, ev.ord, ev.nm), ev.X) IN
              IF CloseMat(ev.out, IF ev.plain THEN Y ELSE MAdd(ev.X, MScale(ev.lamb, Y)), 512)
              THEN {} ELSE {"smooth-" \o ev.nm}
    [] ev.op = "sub" -> IF SubOk(Obj(s, ev.o), Range(ev.vs), ev.mn, FromObs(ObsFor(ev, ev.r), FALSE)) THEN {} ELSE {"restriction"}
    [] ev.op = "drop" ->
         IF DropOk(Obj(s, ev.o), IF ev.og THEN {ev.grp} ELSE IF Obj(s, ev.o).kind = "H" THEN DOMAIN Obj(s, ev.o).gs ELSE {},
                   ev.rate, FromObs(ObsFor(ev, ev.r), IF Obj(s, ev.o).kind \in {"G", "D"} THEN Obj(s, ev.o).extra ELSE FALSE)) THEN {} ELSE {"drop"}
    [] ev.op = "rate" ->          \* kept of n independent items, ev.permille = 1000 * drop rate; 6 sigma
         LET d == Min2(Abs(ev.kept * 1000 - ev.n * (1000 - ev.permille)) \div 100, 40000)
             lim == (((ev.n * (ev.permille \div 10)) * ((1000 - ev.permille) \div 10)) \div 100) * 36
         IN IF d * d <= lim THEN {} ELSE {"rate"}
    [] ev.op = "rare" ->          \* one in ev.inv of many items: the mean n/inv, 8 sigma
         LET mean == ev.n \div ev.inv  d == Min2(Abs(ev.dropped - mean), 10000) IN
         IF d <= 8 \/ (d - 8) * (d - 8) <= 64 * mean THEN {} ELSE {"rate"}
    [] ev.op = "dropmat" ->       \* operators (on the identity): each entry is 0 or that of the operator
         LET x == Obj(s, ev.o) IN
         IF x.kind = "H" /\ ~HOrdOk(x, ev.ord, Range(ev.grps)) THEN {"order"}
         ELSE IF ev.a.nm \in {"L_GCN", "L_HGNN"}
              THEN IF EntriesOk(ev.out, SmoothMat(x, ev.ord, ev.a.nm), ev.rate, 0) THEN {} ELSE {"drop-entries"}
              ELSE IF DropPassOk(x, ev.ord, ev.a, ev.rate, ev.rate2, ev.out) THEN {} ELSE {"drop-" \o ev.a.nm}
    [] ev.op = "dropsp" -> IF EntriesOk(ev.out, ev.full, ev.rate, ev.fill) THEN {} ELSE {"drop-entries"}
    [] ev.op = "views" ->
         LET x == Obj(s, ev.o) IN
         IF x.kind = "H" /\ \E i \in 1..Len(ev.sel) : ~HOrdOk(x, ev.sel[i].ord, Range(ev.sel[i].grps)) THEN {"order"}
         ELSE UNION {ItemBad(x, ev.sel, ev.items[i]) : i \in 1..Len(ev.items)}
    [] ev.op \in {"star", "clique", "bi_from_h"} ->
         LET x == Obj(s, ev.o)  n == x.nv + HNumE(x) IN
         (IF HOrdOk(x, ev.ord, DOMAIN x.gs) THEN {} ELSE {"order"})
         \cup (IF ev.op = "star" /\ ~(Len(ev.mask) = n /\ \A i \in 1..n : ev.mask[i] = (i <= x.nv)) THEN {"mask"} ELSE {})
    [] OTHER -> {}

(* one observed event: next model state and the set of failing clauses *)
Step(s, ev) ==
  LET acc == Accepts(s, ev)
      s1 == IF acc /\ ev.ok THEN TLCEval(Effect(s, ev)) ELSE s
      badObs == {i \in 1..Len(ev.obs) : ev.obs[i].o \notin DOMAIN s1.heap \/ ~ObsOk(Obj(s1, ev.obs[i].o), ev.obs[i])}
      s2 == IF badObs = {} THEN s1
            ELSE [s1 EXCEPT !.heap = TLCEval([o \in DOMAIN s1.heap \cup {ev.obs[i].o : i \in badObs} |->
                    IF \E i \in badObs : ev.obs[i].o = o 
                    THEN FromObs(ObsFor(ev, o), IF o \in DOMAIN s1.heap /\ s1.heap[o].kind \in {"G", "D"} THEN s1.heap[o].extra ELSE FALSE)
                    ELSE s1.heap[o]])]
  IN [s |-> s2,
      bad |-> (IF acc /\ ~ev.ok THEN {"refused-valid-call"} ELSE {})
              \cup (IF ~acc /\ ev.ok THEN {"accepted-invalid-call"} ELSE {})
              \cup (IF ~ev.pure THEN {"argument-modified"} ELSE {})
              \cup (IF acc /\ ev.ok THEN Outcome(s, ev) ELSE {})
              \cup (IF badObs # {} THEN {"content"} ELSE {})]
=============================================================================
