------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* State and views of undirected ("G"), directed ("D") and bipartite ("B") *)
(* graphs.  A graph is a record                                            *)
(*   [kind, nu, nv, w, extra]                                              *)
(* w maps <<a, b>> to the weight (fixed point) of the edge; for "G" a <= b *)
(* and <<a, a>> is an explicit self-loop (also for "D"); for "B" a is a U  *)
(* vertex and b a V vertex.  extra is the implicit unit self-loop flag.    *)
(* nu is 0 except for "B".                                                 *)
(***************************************************************************)
EXTENDS Fixed, FiniteSets, FiniteSetsExt, SequencesExt

EmptyFn == [x \in {} |-> 0]
Put(f, k, v) == [p \in DOMAIN f \cup {k} |-> IF p = k THEN v ELSE f[p]]
Without(f, ks) == [p \in DOMAIN f \ ks |-> f[p]]

MergeOps == {"mean", "sum", "max"}
MergeW(op, x, y) == CASE op = "mean" -> (x + y) \div 2
                      [] op = "sum"  -> x + y
                      [] op = "max"  -> Max2(x, y)

GKinds == {"G", "D", "B"}
NewGraph(kind, nu, nv, extra) == [kind |-> kind, nu |-> nu, nv |-> nv, w |-> EmptyFn, extra |-> extra]

GKey(g, a, b) == IF g.kind = "G" /\ b < a THEN <<b, a>> ELSE <<a, b>>
GInRange(g, a, b) == /\ a >= 0 /\ b >= 0 /\ b < g.nv
                     /\ a < (IF g.kind = "B" THEN g.nu ELSE g.nv)

GAddOne(g, a, b, wt, op) ==
  LET k == GKey(g, a, b) IN
  [g EXCEPT !.w = Put(g.w, k, IF k \in DOMAIN g.w THEN MergeW(op, g.w[k], wt) ELSE wt)]

(* es is a sequence of <<a, b, w>> *)
RECURSIVE GAddFrom(_, _, _, _)
GAddFrom(g, es, op, i) ==
  IF i > Len(es) THEN g
  ELSE GAddFrom(TLCEval(GAddOne(g, es[i][1], es[i][2], es[i][3], op)), es, op, i + 1)
GAdd(g, es, op) == GAddFrom(g, es, op, 1)

GRemove(g, ps) == [g EXCEPT !.w = Without(g.w, {GKey(g, ps[i][1], ps[i][2]) : i \in 1..Len(ps)})]
GClear(g) == [g EXCEPT !.w = EmptyFn, !.extra = FALSE]
GLoops(g) == IF g.kind = "B" THEN {} ELSE {p \in DOMAIN g.w : p[1] = p[2]}
GRemoveLoops(g) == [g EXCEPT !.w = Without(g.w, GLoops(g)), !.extra = FALSE]
GReverse(g) == [g EXCEPT !.w = [p \in {<<q[2], q[1]>> : q \in DOMAIN g.w} |-> g.w[<<p[2], p[1]>>]]]
GSwitch(g) == [GReverse(g) EXCEPT !.nu = g.nv, !.nv = g.nu]

GNumE(g) == Cardinality(DOMAIN g.w) + (IF g.extra THEN g.nv ELSE 0)

(* weight of the connection a -> b including the implicit self-loop; 0 if none *)
GW(g, a, b) == LET k == GKey(g, a, b) IN
               (IF k \in DOMAIN g.w THEN g.w[k] ELSE 0) + (IF g.extra /\ a = b /\ g.kind # "B" THEN ONE ELSE 0)
GHas(g, a, b) == GKey(g, a, b) \in DOMAIN g.w \/ (g.extra /\ a = b /\ g.kind # "B")


SumOver(S, f(_)) == MapThenSumSet(f, S)

-----------------------------------------------------------------------------
(* Content as reported: es is a sequence of <<a, b, w>> listing every edge  *)
(* once; implicit self-loops appear in addition to explicit ones.           *)
GEdgesMatch(g, es) ==
  LET keys == {GKey(g, es[i][1], es[i][2]) : i \in 1..Len(es)}
      loops == IF g.extra THEN {<<v, v>> : v \in 0..(g.nv - 1)} ELSE {}
  IN  /\ keys = DOMAIN g.w \cup loops
      /\ \A k \in keys :
           LET at == {i \in 1..Len(es) : GKey(g, es[i][1], es[i][2]) = k} IN
           /\ Cardinality(at) = (IF k \in DOMAIN g.w THEN 1 ELSE 0) + (IF k \in loops THEN 1 ELSE 0)
           /\ Close(SumOver(at, LAMBDA i : es[i][3]), GW(g, k[1], k[2]), 8)

(* edges listed in both directions, self-loops once *)
GBothMatch(g, es) ==
  LET d == [g EXCEPT !.kind = "D",
            !.w = [p \in DOMAIN g.w \cup {<<q[2], q[1]>> : q \in DOMAIN g.w} |-> g.w[GKey(g, p[1], p[2])]]]
  IN GEdgesMatch(d, es)

(* parallel vectors <<a, b, w>> of all connections: each connected ordered pair once *)
GDirected(g) == {<<a, b>> \in (0..(g.nv - 1)) \X (0..(g.nv - 1)) : GHas(g, a, b)}
BConn(g) == DOMAIN g.w
ConnMatch(conn, wt(_, _), es) ==
  /\ Len(es) = Cardinality(conn)
  /\ {<<es[i][1], es[i][2]>> : i \in 1..Len(es)} = conn
  /\ \A i \in 1..Len(es) : Close(es[i][3], wt(es[i][1], es[i][2]), 8)

-----------------------------------------------------------------------------
(* matrices (row/column i stands for vertex i-1) *)
GAdj(g) == Mat(g.nv, g.nv, LAMBDA i, j : GW(g, i - 1, j - 1))
BInc(g) == Mat(g.nu, g.nv, LAMBDA i, j : GW(g, i - 1, j - 1))
BAdj(g) == Mat(g.nu + g.nv, g.nu + g.nv,
               LAMBDA i, j : IF i <= g.nu /\ j > g.nu THEN GW(g, i - 1, j - g.nu - 1)
                             ELSE IF i > g.nu /\ j <= g.nu THEN GW(g, j - 1, i - g.nu - 1)
                             ELSE 0)
InvVec(d) == Vec(Len(d), LAMBDA i : Inv(d[i]))
InvSqrtVec(d) == Vec(Len(d), LAMBDA i : InvSqrt(d[i]))
DegOut(g) == RowSums(GAdj(g))
DegIn(g) == RowSums(Transpose(GAdj(g), g.nv, g.nv))
BDegU(g) == RowSums(BInc(g))
BDegV(g) == RowSums(Transpose(BInc(g), g.nu, g.nv))

GNoLoops(g) == GRemoveLoops(g)
SymNorm(a) == LET d == InvSqrtVec(RowSums(a)) IN ScaleCols(ScaleRows(d, a), d)
GLap(g) == LET a == GAdj(GNoLoops(g)) IN MSub(DiagM(RowSums(a)), a)
GLapSym(g) == LET a == GAdj(GNoLoops(g)) IN MSub(Ident(g.nv), SymNorm(a))
GLapRw(g) == LET a == GAdj(GNoLoops(g)) IN MSub(Ident(g.nv), ScaleRows(InvVec(RowSums(a)), a))
(* one implicit unit self-loop per vertex, whether or not already present *)
GLapGCN(g) == SymNorm(GAdj([g EXCEPT !.extra = TRUE]))
BLapGCN(g) == SymNorm(MAdd(BAdj(g), Ident(g.nu + g.nv)))

(* vertices reached by walks of exactly hop steps *)
RECURSIVE GWalk(_, _, _)
GWalk(g, S, hop) ==
  IF hop = 0 THEN S
  ELSE GWalk(g, {b \in 0..(g.nv - 1) : \E a \in S : GHas(g, a, b)}, hop - 1)

SetMatch(S, s) == Len(s) = Cardinality(S) /\ Range(s) = S
IotaMatch(n, s) == Len(s) = n /\ \A i \in 1..n : s[i] = i - 1

T1 == 96        \* tolerance of a chain of fixed-point operations (2^-20 units)

(* nm: view name, arg: vertex index / <<vertex, hop>>, v: logged value *)
GViewOk(g, nm, arg, v) ==
  LET both == ConnMatch(GDirected(g), LAMBDA a, b : GW(g, a, b), v)
      diag(d, t) == CloseMat(v, DiagM(d), t)
  IN
  CASE nm = "v" -> IotaMatch(g.nv, v)
    [] nm = "u" -> IotaMatch(g.nu, v)
    [] nm = "num_v" -> v = g.nv
    [] nm = "num_u" -> v = g.nu
    [] nm = "num_e" -> v = GNumE(g)
    [] nm = "e" -> GEdgesMatch(g, v)
    [] nm = "e_both_side" -> GBothMatch(g, v)
    [] nm = "A" -> CloseMat(v, IF g.kind = "B" THEN BAdj(g) ELSE GAdj(g), 8)
    [] nm = "A_T" -> CloseMat(v, Transpose(GAdj(g), g.nv, g.nv), 8)
    [] nm = "B" -> CloseMat(v, BInc(g), 8)
    [] nm = "B_T" -> CloseMat(v, Transpose(BInc(g), g.nu, g.nv), 8)
    [] nm = "D_u" -> diag(BDegU(g), 16)
    [] nm = "D_v" -> diag(IF g.kind = "B" THEN BDegV(g) ELSE DegOut(g), 16)
    [] nm = "D_v_in" -> diag(DegIn(g), 16)
    [] nm = "D_v_out" -> diag(DegOut(g), 16)
    [] nm = "D_u_neg_1" -> diag(InvVec(BDegU(g)), 32)
    [] nm = "D_v_neg_1" -> diag(InvVec(IF g.kind = "B" THEN BDegV(g) ELSE DegOut(g)), 32)
    [] nm = "D_v_in_neg_1" -> diag(InvVec(DegIn(g)), 32)
    [] nm = "D_v_out_neg_1" -> diag(InvVec(DegOut(g)), 32)
    [] nm = "D_v_neg_1_2" -> diag(InvSqrtVec(DegOut(g)), 64)
    [] nm = "deg_u" -> CloseSeq(v, BDegU(g), 16)
    [] nm = "deg_v" -> CloseSeq(v, IF g.kind = "B" THEN BDegV(g) ELSE DegOut(g), 16)
    [] nm = "deg_v_in" -> CloseSeq(v, DegIn(g), 16)
    [] nm = "deg_v_out" -> CloseSeq(v, DegOut(g), 16)
    [] nm = "nbr_v" -> IF g.kind = "B" THEN SetMatch({b \in 0..(g.nv - 1) : GHas(g, arg[1], b)}, v)
                       ELSE SetMatch(GWalk(g, {arg[1]}, arg[2]), v)
    [] nm = "nbr_u" -> SetMatch({a \in 0..(g.nu - 1) : GHas(g, a, arg[1])}, v)
    [] nm = "nbr_v_out" -> SetMatch({b \in 0..(g.nv - 1) : GHas(g, arg[1], b)}, v)
    [] nm = "nbr_v_in" -> SetMatch({a \in 0..(g.nv - 1) : GHas(g, a, arg[1])}, v)
    [] nm = "conn" -> IF g.kind = "B" THEN ConnMatch(BConn(g), LAMBDA a, b : GW(g, a, b), v) ELSE both
    [] nm = "L" -> CloseMat(v, GLap(g), 32)
    [] nm = "L_sym" -> CloseMat(v, GLapSym(g), T1)
    [] nm = "L_rw" -> CloseMat(v, GLapRw(g), T1)
    [] nm = "L_GCN" -> CloseMat(v, IF g.kind = "B" THEN BLapGCN(g) ELSE GLapGCN(g), T1)
=============================================================================
