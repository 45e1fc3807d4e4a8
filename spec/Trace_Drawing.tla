--------------------------- MODULE Trace_Drawing ---------------------------
(***************************************************************************)
(* Verdicts for recorded drawings.  The state remembers, for the structure *)
(* a trace draws, the unit of every size option (what the value 1 shows):  *)
(* every later drawing of the same structure must use multiples of it.     *)
(***************************************************************************)
EXTENDS Drawing, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, s
Z0 == [vsz |-> -1, usz |-> -1, vlw |-> -1, ulw |-> -1, elw |-> -1, ehw |-> -1, vfs |-> -1, ufs |-> -1]
C(name, ok) == IF ok THEN {} ELSE {name}
Ver(ns, bad) == [s |-> ns, bad |-> bad]
Fin(x) == Abs(x) < MaxVal
Finite(c) == /\ \A i \in 1..Len(c.V) : Fin(c.V[i].x) /\ Fin(c.V[i].y) /\ Fin(c.V[i].r) /\ Fin(c.V[i].lw)
             /\ \A i \in 1..Len(c.T) : Fin(c.T[i].x) /\ Fin(c.T[i].y) /\ Fin(c.T[i].fs)
             /\ \A i \in 1..Len(c.A) : Fin(c.A[i].x0) /\ Fin(c.A[i].y0) /\ Fin(c.A[i].x1) /\ Fin(c.A[i].y1)
             /\ \A i \in 1..Len(c.P) : \A k \in 1..Len(c.P[i].segs) : \A d \in 1..4 : Fin(c.P[i].segs[k][d])
             /\ \A i \in 1..Len(c.R) : Fin(c.R[i].x) /\ Fin(c.R[i].y) /\ Fin(c.R[i].r) /\ Fin(c.R[i].sx) /\ Fin(c.R[i].ex)
             /\ \A i \in 1..Len(c.K) : Fin(c.K[i].x) /\ Fin(c.K[i].y) /\ Fin(c.K[i].r)
(* every size in sizes (pairs of drawn size and quarters) is a multiple of one unit, the remembered one if any *)
UnitFor(sizes, old) ==
  LET some == {p \in sizes : UnitOf(p[1], p[2]) # -1} IN
  IF old # -1 THEN old ELSE IF some = {} THEN -1 ELSE LET p == CHOOSE p \in some : \A q \in some : p[2] >= q[2] IN UnitOf(p[1], p[2])
Sized(name, sizes, old) == C(name, LET u == UnitFor(sizes, old) IN \A p \in sizes : Scaled(p[1], p[2], u) /\ (p[2] = 0 => Abs(p[1]) <= 16))
EdgeArt(c, st, i, a) ==   \* drawn line widths of edge i: those of the artists with its colour, when colours tell edges apart
  {c.A[k].lw : k \in {k \in 1..Len(c.A) : c.A[k].c = At(a.ecol, i, "#808080")}}
  \cup {c.P[k].lw : k \in {k \in 1..Len(c.P) : c.P[k].c = At(a.ecol, i, "#808080")}}
  \cup {c.K[k].lw : k \in {k \in 1..Len(c.K) : c.K[k].c = At(a.ecol, i, "#808080")}}
  \cup {c.R[k].lw : k \in {k \in 1..Len(c.R) : c.R[k].full /\ c.R[k].c = At(a.ecol, i, "#808080")}}
Draw(t, e) ==
  LET st == e.st  a == e.a IN
  IF Refused(st, a, e.style) THEN Ver(t, C("accepted", ~e.ok) \cup C("structure-modified", e.pure) \cup C("options-modified", e.pureA))
  ELSE IF ~e.ok THEN Ver(t, {"refused"})
  ELSE LET c == e.c
           vz == {<<c.V[i].r, At(a.vsz, i - st.nu, 4)>> : i \in (st.nu + 1)..Total(st)}
           uz == {<<c.V[i].r, At(a.usz, i, 4)>> : i \in 1..st.nu}
           vw == {<<c.V[i].lw, At(a.vlw, i - st.nu, 4)>> : i \in (st.nu + 1)..Total(st)}
           uw == {<<c.V[i].lw, At(a.ulw, i, 4)>> : i \in 1..st.nu}
           tf(side) == UNION {{<<c.T[k].fs, IF side = "v" THEN a.vfs ELSE a.ufs>> : k \in {k \in 1..Len(c.T) : c.T[k].t = Opt(st, i, a.ulab, a.vlab, "") /\ LabelAt(c, c.T[k], i)}}
                              : i \in {i \in Labelled(st, a) : Side(st, i) = side}}
           apart == a.ecol.f = "list" \/ a.elw.f # "list"
           eh == IF apart /\ st.kind = "D" THEN UNION {{<<c.A[k].hw, At(a.elw, i, 4)>> : k \in {k \in 1..Len(c.A) : c.A[k].c = At(a.ecol, i, "#808080")}} : i \in 1..Len(st.es)} ELSE {}
           ew == IF apart THEN UNION {{<<w, At(a.elw, i, 4)>> : w \in EdgeArt(c, st, i, a)} : i \in 1..Len(st.es)} ELSE {}
       IN
       IF Len(c.V) # Total(st) THEN Ver(t, {"vertices"})
       ELSE IF ~Finite(c) THEN Ver(t, {"not-finite"})
       ELSE Ver([t EXCEPT !.vsz = UnitFor(vz, @), !.usz = UnitFor(uz, @), !.vlw = UnitFor(vw, @), !.ulw = UnitFor(uw, @),
                          !.elw = UnitFor(ew, @), !.ehw = UnitFor(eh, @), !.vfs = UnitFor(tf("v"), @), !.ufs = UnitFor(tf("u"), @)],
              C("structure-modified", e.pure) \cup C("options-modified", e.pureA)
              \cup C("outside", Inside(c, e.lim)) \cup C("other-artists", e.other = 0)
              \cup C("vertex-colours", \A i \in 1..Len(c.V) : c.V[i].c = Opt(st, i, a.ucol, a.vcol, IF i <= st.nu THEN "#bf00bf" ELSE "#ff0000"))
              \cup C("labels", Labels(st, a, c))
              \cup C("edges", IF e.style = "line" THEN Lines(st, a, c) ELSE Outlines(st, a, c))
              \cup Sized("vertex-sizes", vz, t.vsz) \cup Sized("vertex-sizes", uz, t.usz)
              \cup Sized("vertex-line-widths", vw, t.vlw) \cup Sized("vertex-line-widths", uw, t.ulw)
              \cup Sized("edge-line-widths", ew, t.elw)
              \cup Sized("arrow-head-sizes", eh, t.ehw)
              \cup Sized("font-sizes", tf("v"), t.vfs) \cup Sized("font-sizes", tf("u"), t.ufs)
              \cup C("joined-vertices-apart", ~e.pulled \/
                     \A i \in 1..Len(st.es) : \A v, w \in Items(st.es[i]) : Abs(c.V[v + 1].x - c.V[w + 1].x) <= 209715 /\ Abs(c.V[v + 1].y - c.V[w + 1].y) <= 209715))
(* the layout alone: pos, members of every edge, forces, number of vertices in the first group, steps *)
Layout(t, e) ==
  IF ~e.ok THEN Ver(t, {"refused"})
  ELSE LET M == [k \in 1..Len(e.es) |-> {v + 1 : v \in Items(e.es[k])}]
           Q == Simulate(e.pos, M, e.f, e.nf, ONE, e.n) IN
       Ver(t, C("positions", CloseMat(e.out, Q, 128 + 256 * e.n)) \cup C("inputs-modified", e.pure))
(* feature projections *)
Ball(t, e) ==
  IF ~e.ok THEN Ver(t, {"refused"})
  ELSE IF Len(e.out) # e.n \/ \E i \in 1..Len(e.out) : Len(e.out[i]) # e.dim \/ \E d \in 1..Len(e.out[i]) : ~Fin(e.out[i][d]) THEN Ver(t, {"one-point-per-row"})
  ELSE Ver(t, C("outside-ball", \A i \in 1..e.n : SumSq(e.out[i], e.dim) <= ONE \div 2)
              \cup C("inputs-modified", e.pure)
              \cup C("positions", e.U = <<>> \/ \A d \in 1..e.dim : \E sgn \in {-1, 1} : \A i \in 1..e.n :
                       Close(e.out[i][d], IntoBall([k \in 1..e.dim |-> IF k = d THEN sgn * e.U[i][k] ELSE e.U[i][k]])[d], 2048)))
(* points on a canvas: normalised to [0.1, 0.9] along every axis, in the order of the rows, coloured by label *)
Lo(q, d) == CHOOSE x \in {q[i][d] : i \in 1..Len(q)} : \A i \in 1..Len(q) : x <= q[i][d]
Hi(q, d) == CHOOSE x \in {q[i][d] : i \in 1..Len(q)} : \A i \in 1..Len(q) : x >= q[i][d]
Scatter(t, e) ==
  IF ~e.ok THEN Ver(t, {"refused"})
  ELSE IF Len(e.out) # e.n \/ \E i \in 1..Len(e.out) : Len(e.out[i]) # e.dim \/ \E d \in 1..Len(e.out[i]) : ~Fin(e.out[i][d]) THEN Ver(t, {"one-point-per-row"})
  ELSE Ver(t, C("inputs-modified", e.pure) \cup C("labels", e.lab = e.want)
              \cup C("outside", \A d \in 1..e.dim : Close(Lo(e.out, d), 104858, 8) /\ (Close(Hi(e.out, d), 943718, 8) \/ (e.flat[d] /\ Hi(e.out, d) - Lo(e.out, d) < 8)))
              \cup C("positions", e.proj = <<>> \/ \A d \in 1..e.dim : e.flat[d] \/
                       LET lo == Lo(e.proj, d)  w == Hi(e.proj, d) - lo IN
                       \A i \in 1..e.n : Close(e.out[i][d], 104858 + Mul(838861, Div(e.proj[i][d] - lo, w)), 64)))
Step(t, e) ==
  CASE e.op = "draw" -> Draw(t, e)
    [] e.op = "layout" -> Layout(t, e)
    [] e.op = "ball" -> Ball(t, e)
    [] e.op = "scatter" -> Scatter(t, e)
    [] e.op = "badcall" -> Ver(t, C("accepted", ~e.ok))
Report(r) == r.bad = {} \/ PrintT("FAIL " \o ToString(tr) \o " " \o ToString(l) \o " " \o ToString(r.bad))
TraceInit == tr \in 1..Len(Traces) /\ l = 1 /\ s = Z0
TraceNext == /\ l <= Len(Traces[tr].ev)
             /\ LET r == Step(s, Traces[tr].ev[l]) IN Report(r) /\ s' = r.s
             /\ l' = l + 1
             /\ tr' = tr
=============================================================================
