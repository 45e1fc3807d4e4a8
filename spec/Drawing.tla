------------------------------ MODULE Drawing ------------------------------
(***************************************************************************)
(* What a drawing of a structure shows.  Numbers are fixed point (Fixed).  *)
(* A structure to draw: [kind, nu, nv, es]; es is the sequence of edges in *)
(* the library's order, each a sequence of vertices; in a bipartite graph  *)
(* (kind "B") the vertices of V come after the nu vertices of U.           *)
(* A canvas records                                                        *)
(*   V  vertices      [x, y, r, lw, c]      (in order)                     *)
(*   T  labels        [t, x, y, fs, fam]                                   *)
(*   A  line edges    [x0, y0, x1, y1, lw, c, head]                        *)
(*   P  outlines      [segs: sequence of <<ax, ay, bx, by>>, lw, c, fill]  *)
(*   R  arcs          [x, y, r, sx, sy, ex, ey, full, lw, c]               *)
(*   K  rings         [x, y, r, lw, c]                                     *)
(* Options have a form: "none" and "one" stand for one value for all items *)
(* (sizes q in quarters, colours c as text), "list" for one per item.      *)
(***************************************************************************)
EXTENDS Fixed, FiniteSets


Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Cross(a, b) == Mul(a[1], b[2]) - Mul(a[2], b[1])
Dot2(a, b) == Mul(a[1], b[1]) + Mul(a[2], b[2])
Norm(a) == Sqrt(Dot2(a, a))
Items(q) == {q[i] : i \in 1..Len(q)}
Total(st) == st.nu + st.nv

(* ---- options ---- *)
Fits(o, n) == o.f # "list" \/ Len(o.v) = n
At(o, i, default) == IF o.f = "none" THEN default ELSE IF o.f = "one" THEN o.v[1] ELSE o.v[i]
(* all options of a request have the right length, the style is known and there is something to draw *)
Refused(st, a, style) ==
  \/ style \notin (CASE st.kind = "G" -> {"line", "circle"} [] st.kind = "H" -> {"circle"} [] OTHER -> {"line"})
  \/ a.wrongtype
  \/ Len(st.es) = 0
  \/ ~Fits(a.vsz, st.nv) \/ ~Fits(a.vlw, st.nv) \/ ~Fits(a.vcol, st.nv) \/ ~Fits(a.vlab, st.nv)
  \/ ~Fits(a.usz, st.nu) \/ ~Fits(a.ulw, st.nu) \/ ~Fits(a.ucol, st.nu) \/ ~Fits(a.ulab, st.nu)
  \/ ~Fits(a.elw, Len(st.es)) \/ ~Fits(a.ecol, Len(st.es)) \/ ~Fits(a.efill, Len(st.es))
Side(st, i) == IF i <= st.nu THEN "u" ELSE "v"
Opt(st, i, u, v, default) == IF i <= st.nu THEN At(u, i, default) ELSE At(v, i - st.nu, default)
(* a size drawn for q quarters of the unit *)
Scaled(size, q, unit) == unit = -1 \/ (Abs(size) < 300000000 /\ Abs(4 * size - q * unit) <= 16 + 2 * q + ((q * unit) \div 100000))
(* the unit shown by a size drawn for q quarters; -1: not shown *)
UnitOf(size, q) == IF q = 0 \/ Abs(size) > 300000000 THEN -1 ELSE (4 * size) \div q

(* ---- vertices and labels ---- *)
Pt(c, i) == <<c.V[i].x, c.V[i].y>>
Inside(c, lim) == \A i \in 1..Len(c.V) : c.V[i].x \in lim[1]..lim[2] /\ c.V[i].y \in lim[3]..lim[4]
(* the label of vertex i stands at it *)
LabelAt(c, t, i) == Close(t.x, c.V[i].x, 64) /\ Abs(t.y - c.V[i].y) <= 2 * c.V[i].r + 64
Labelled(st, a) == {i \in 1..Total(st) : Opt(st, i, a.ulab, a.vlab, "") # ""}
Labels(st, a, c) ==
  /\ Len(c.T) = Cardinality(Labelled(st, a))
  /\ \A i \in Labelled(st, a) :
       \E k \in 1..Len(c.T) : c.T[k].t = Opt(st, i, a.ulab, a.vlab, "") /\ LabelAt(c, c.T[k], i) /\ c.T[k].fam = a.fam

(* ---- edges as lines: between the borders of its two vertices ---- *)
Border(c, i, j, p) ==       \* p is the border point of vertex i towards vertex j
  LET d == Sub(Pt(c, j), Pt(c, i))  q == Sub(p, Pt(c, i)) IN
  Norm(d) < 10486 \/ (Close(Norm(q), c.V[i].r, 256) /\ Abs(Cross(q, d)) <= 256 /\ Dot2(q, d) >= 0)
LineFits(st, c, e, s, directed) ==
  LET i == e[1] + 1  j == e[2] + 1 IN
  \/ Border(c, i, j, <<s.x0, s.y0>>) /\ Border(c, j, i, <<s.x1, s.y1>>)
  \/ ~directed /\ Border(c, j, i, <<s.x0, s.y0>>) /\ Border(c, i, j, <<s.x1, s.y1>>)
Loop(e) == Cardinality(Items(e)) = 1
RingFits(c, e, k) == LET d == Norm(Sub(<<k.x, k.y>>, Pt(c, e[1] + 1))) IN k.r > 0 /\ d <= k.r + c.V[e[1] + 1].r + 64
Lines(st, a, c) ==
  LET plain == {i \in 1..Len(st.es) : ~Loop(st.es[i])}  loops == 1..Len(st.es) \ plain  dir == st.kind = "D" IN
  /\ Len(c.A) = Cardinality(plain) /\ Len(c.K) = Cardinality(loops) /\ c.P = <<>> /\ c.R = <<>>
  /\ \A i \in plain : \E k \in 1..Len(c.A) :
       LineFits(st, c, st.es[i], c.A[k], dir) /\ c.A[k].c = At(a.ecol, i, "#808080") /\ c.A[k].head = dir
  /\ \A i \in loops : \E k \in 1..Len(c.K) : RingFits(c, st.es[i], c.K[k]) /\ c.K[k].c = At(a.ecol, i, "#808080")

(* ---- edges as outlines: a closed chain of tangents and arcs around the convex hull of the members ---- *)
Same(x, y, p) == Close(x, p[1], 32) /\ Close(y, p[2], 32)
Owner(c, r) == {i \in 1..Len(c.V) : Close(r.x, c.V[i].x, 32) /\ Close(r.y, c.V[i].y, 32)}
(* the vertices between which a segment runs, with the radii there *)
Ends(c, s) ==
  LET K == {k \in 1..Len(c.R) : Same(c.R[k].ex, c.R[k].ey, <<s[1], s[2]>>)}
      M == {m \in 1..Len(c.R) : Same(c.R[m].sx, c.R[m].sy, <<s[3], s[4]>>)} IN
  {x \in UNION {{<<i, j, k, m>> : i \in Owner(c, c.R[k]), j \in Owner(c, c.R[m])} : k \in K, m \in M} : x[1] # x[2]}
Tangent(c, s, x) ==
  LET pi == Pt(c, x[1])  pj == Pt(c, x[2])  ri == c.R[x[3]].r  rj == c.R[x[4]].r
      d == Sub(pj, pi)  a == <<s[1], s[2]>>  b == <<s[3], s[4]>>  t == Sub(b, a) IN
  \/ Abs(ri - rj) + 512 >= Norm(d)                                   \* one circle inside the other: no tangent
  \/ Abs(Dot2(Sub(a, pi), t)) <= 512 /\ Abs(Dot2(Sub(b, pj), t)) <= 512
     /\ Cross(d, Sub(a, pi)) <= 64 /\ Cross(d, Sub(b, pj)) <= 64     \* on the outer side of a counterclockwise chain
RECURSIVE Walk(_, _, _, _)
Walk(nx, i, seen, n) == IF i \in seen \/ n = 0 THEN seen ELSE Walk(nx, nx[i], seen \cup {i}, n - 1)
(* the segments of one outline, given for each the vertices it joins, surround the members *)
Surround(c, members, xs) ==
  LET from == {x[1] : x \in xs}  nx == [i \in from |-> (CHOOSE x \in xs : x[1] = i)[2]] IN
  /\ from \subseteq members /\ {x[2] : x \in xs} = from /\ Cardinality(xs) = Cardinality(from)
  /\ \A i \in from : Walk(nx, i, {}, Cardinality(from)) = from
  /\ \A x \in xs : \A m \in members \ {x[1], x[2]} :
       LET k == Cross(Sub(Pt(c, x[2]), Pt(c, x[1])), Sub(Pt(c, m), Pt(c, x[1]))) IN
       k > 64 \/ (k >= -64 /\ (m \in from \/ Dot2(Sub(Pt(c, m), Pt(c, x[1])), Sub(Pt(c, m), Pt(c, x[2]))) <= 64))
ArcsFit(c, xs, lw, col) ==
  \A x \in xs : /\ Close(c.R[x[3]].lw, lw, 64) /\ c.R[x[3]].c = col
                /\ c.R[x[3]].r + 64 >= c.V[x[1]].r
                /\ \E y \in xs : y[2] = x[1] /\ y[4] = x[3]          \* the arc joins two segments of the outline
OutlineXs(c, p) == UNION {Ends(c, p.segs[k]) : k \in 1..Len(p.segs)}
OutlineFits(c, e, p, xs) ==
  LET members == {v + 1 : v \in Items(e)} IN
  /\ Cardinality(xs) = Len(p.segs) /\ Len(p.segs) >= 2
  /\ \A k \in 1..Len(p.segs) : LET x == Ends(c, p.segs[k]) IN Cardinality(x) = 1 /\ Tangent(c, p.segs[k], CHOOSE q \in x : TRUE)
  /\ Surround(c, members, xs) /\ ArcsFit(c, xs, p.lw, p.c)
Full(c, e) == {k \in 1..Len(c.R) : c.R[k].full /\ e[1] + 1 \in Owner(c, c.R[k])}
Outlines(st, a, c) ==
  LET many == {i \in 1..Len(st.es) : ~Loop(st.es[i])}  ones == 1..Len(st.es) \ many
      xs == TLCEval([k \in 1..Len(c.P) |-> OutlineXs(c, c.P[k])])
      match == TLCEval([i \in many |-> {k \in 1..Len(c.P) : /\ c.P[k].c = At(a.ecol, i, "#808080")
                                                            /\ c.P[k].fill = At(a.efill, i, "#f5f5f5")
                                                            /\ OutlineFits(c, st.es[i], c.P[k], xs[k])}])
      rad(i, v) == LET k == CHOOSE k \in match[i] : TRUE  x == {y \in xs[k] : y[1] = v} IN IF x = {} THEN -1 ELSE c.R[(CHOOSE y \in x : TRUE)[3]].r IN
  /\ Len(c.P) = Cardinality(many) /\ c.A = <<>> /\ c.K = <<>>
  /\ \A i \in many : match[i] # {}
  /\ UNION {match[i] : i \in many} = 1..Len(c.P)
  /\ Len(c.R) = Cardinality(UNION {{x[3] : x \in xs[k]} : k \in 1..Len(c.P)}) + Cardinality(ones)
  /\ \A i \in ones : \E k \in Full(c, st.es[i]) : c.R[k].c = At(a.ecol, i, "#808080") /\ c.R[k].r + 64 >= c.V[st.es[i][1] + 1].r
  \* the outlines of larger edges pass outside those of smaller ones at a common vertex
  /\ \A i, j \in many : (Cardinality(Items(st.es[i])) < Cardinality(Items(st.es[j])) /\ Cardinality(match[i]) = 1 /\ Cardinality(match[j]) = 1) =>
       \A v \in {m + 1 : m \in Items(st.es[i]) \cap Items(st.es[j])} : rad(i, v) = -1 \/ rad(j, v) = -1 \/ rad(i, v) < rad(j, v)
(* constructing an outline (the specification's own drawing, used by the model): tangents around the hull *)
HullPairs(P, members) ==
  {<<i, j>> \in members \X members : i # j /\ \A m \in members \ {i, j} :
     LET k == Cross(Sub(P[j], P[i]), Sub(P[m], P[i])) IN
     k > 0 \/ (k = 0 /\ Dot2(Sub(P[m], P[i]), Sub(P[m], P[j])) < 0)}
TangentSeg(P, rad, i, j) ==
  LET d == Sub(P[j], P[i])  n == Norm(d)
      u == <<Div(d[1], n), Div(d[2], n)>>
      co == Div(rad[i] - rad[j], n)  si == Sqrt(Max2(0, ONE - Mul(co, co)))
      w == <<Mul(co, u[1]) + Mul(si, u[2]), Mul(co, u[2]) - Mul(si, u[1])>> IN
  <<P[i][1] + Mul(rad[i], w[1]), P[i][2] + Mul(rad[i], w[2]), P[j][1] + Mul(rad[j], w[1]), P[j][2] + Mul(rad[j], w[2])>>
Outline(P, rad, members, lw, col, fill) ==
  LET hp == HullPairs(P, members)
      RECURSIVE order(_, _)
      order(i, acc) == LET j == (CHOOSE q \in hp : q[1] = i)[2] IN
                       IF \E k \in 1..Len(acc) : acc[k][1] = i THEN acc ELSE order(j, Append(acc, <<i, j>>))
      o == order((CHOOSE q \in hp : TRUE)[1], <<>>)
      seg(k) == TangentSeg(P, rad, o[k][1], o[k][2])
      n == Len(o)
      prev(k) == IF k = 1 THEN n ELSE k - 1 IN
  [P |-> [segs |-> [k \in 1..n |-> seg(k)], lw |-> lw, c |-> col, fill |-> fill],
   R |-> [k \in 1..n |-> [x |-> P[o[k][1]][1], y |-> P[o[k][1]][2], r |-> rad[o[k][1]], sx |-> seg(prev(k))[3], sy |-> seg(prev(k))[4],
                          ex |-> seg(k)[1], ey |-> seg(k)[2], full |-> FALSE, lw |-> lw, c |-> col]]]

(* ---- the layout: forces on every vertex ---- *)
Mean2(P, m) == LET RECURSIVE sm(_, _) sm(S, k) == IF S = {} THEN 0 ELSE LET v == CHOOSE v \in S : TRUE IN P[v][k] + sm(S \ {v}, k) IN
  <<sm(m, 1) \div Cardinality(m), sm(m, 2) \div Cardinality(m)>>
VAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
VScale(k, a) == <<Mul(k, a[1]), Mul(k, a[2])>>
RECURSIVE VSum(_)
VSum(f) == IF DOMAIN f = {} THEN <<0, 0>> ELSE LET v == CHOOSE v \in DOMAIN f : TRUE IN VAdd(f[v], VSum([w \in DOMAIN f \ {v} |-> f[w]]))
Unit(a) == LET n == Norm(a) IN IF n < 2 THEN <<0, 0>> ELSE <<Div(a[1], n), Div(a[2], n)>>
REST == 104858       \* a vertex rests 0.1 away from the centre of its edge
(* towards the centres of its edges *)
PullF(P, cs, M, i) ==
  VSum([k \in {k \in DOMAIN M : i \in M[k]} |-> LET d == Sub(cs[k], P[i]) n == Norm(d) IN IF n = 0 THEN <<0, 0>> ELSE VScale(n - REST, Unit(d))])
(* away from every other vertex, and edge centre from edge centre *)
Repel(d) == VScale(Inv(Dot2(d, d)), Unit(d))
PushF(P, i) == VSum([j \in DOMAIN P \ {i} |-> Repel(Sub(P[i], P[j]))])
EdgePushF(cs, M, i) ==
  VSum([k \in {k \in DOMAIN M : i \in M[k]} |-> VSum([m \in DOMAIN M \ {k} |-> Repel(Sub(cs[k], cs[m]))])])
Clip(x, b) == Max2(-b, Min2(b, x))
(* f: [pull, push: <<first, second>>, epush, grav, centers]; nf: number of vertices in the first group *)
ForceOn(P, M, f, nf, i) ==
  LET cs == TLCEval([k \in DOMAIN M |-> Mean2(P, M[k])])  s == IF i <= nf THEN 1 ELSE 2 IN
  VAdd(VAdd(VScale(f.pull, PullF(P, cs, M, i)), VScale(f.push[s], PushF(P, i))),
       VAdd(IF f.epush = 0 THEN <<0, 0>> ELSE VScale(f.epush, EdgePushF(cs, M, i)), VScale(f.grav[s], Sub(f.centers[s], P[i]))))
RECURSIVE Simulate(_, _, _, _, _, _)
Simulate(P, M, f, nf, damp, n) ==
  IF n = 0 THEN P
  ELSE LET v == TLCEval([i \in DOMAIN P |-> LET F == VScale(damp, ForceOn(P, M, f, nf, i)) IN <<Clip(F[1], REST), Clip(F[2], REST)>>])
           Q == [i \in DOMAIN P |-> VAdd(P[i], <<2 * v[i][1], 2 * v[i][2]>>)] IN
       Simulate(TLCEval(Q), M, f, nf, Mul(damp, 1047527), n - 1)

(* ---- feature projections ---- *)
RECURSIVE SumSq(_, _)
SumSq(p, k) == IF k = 0 THEN 0 ELSE Mul(p[k], p[k]) + SumSq(p, k - 1)
Len2(p) == Sqrt(SumSq(p, Len(p)))
ROOT2 == 1482910
Tanh(x) == LET a == Exp(-2 * x) IN Div(ONE - a, ONE + a)     \* x >= 0
(* from the tangent space at the origin into the ball of curvature 2 *)
IntoBall(u) == LET n == Mul(ROOT2, Len2(u)) IN
  IF n = 0 THEN u ELSE LET k == Div(Tanh(n), n) IN [i \in 1..Len(u) |-> Mul(k, u[i])]
=============================================================================
