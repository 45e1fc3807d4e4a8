----------------------------- MODULE MC_Drawing -----------------------------
(***************************************************************************)
(* Validates the specification of drawings on itself: for every placement  *)
(* and set of members the constructed outline is accepted, and damaged     *)
(* ones are rejected; forces obey Newton's third law, do not depend on the *)
(* position or numbering of the drawing, and pull joined vertices          *)
(* together.  Every small structure is emitted for replay with every kind  *)
(* of option.                                                              *)
(***************************************************************************)
EXTENDS Drawing, Json, IOUtils
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET v == CHOOSE v \in S : TRUE IN <<v>> \o SetToSeq(S \ {v})
VARIABLES x
T(a, b) == <<a * 26214, b * 26214>>      \* in fortieths
Placements ==
  {<<T(4, 4), T(36, 4), T(20, 34), T(19, 14)>>,       \* one inside the triangle of the others
   <<T(4, 4), T(36, 5), T(35, 36), T(5, 34)>>,        \* convex
   <<T(4, 20), T(14, 20), T(30, 20), T(36, 33)>>,     \* three on a line
   <<T(36, 36), T(4, 35), T(20, 4), T(21, 7)>>}
Radii == {<<36000, 36000, 36000, 36000>>, <<20000, 60000, 30000, 45000>>, <<70000, 8000, 8000, 70000>>}
Members == {m \in SUBSET (1..4) : Cardinality(m) >= 2}
Canvas(P, r, o) == [V |-> [i \in 1..4 |-> [x |-> P[i][1], y |-> P[i][2], r |-> r[i] \div 2, lw |-> ONE, c |-> "v"]], T |-> <<>>, A |-> <<>>, K |-> <<>>, P |-> <<o.P>>, R |-> o.R]
Es(m) == <<SetToSeq({i - 1 : i \in m})>>
None == [f |-> "none", v |-> <<>>]
Opts == [vsz |-> None, vlw |-> None, vcol |-> None, vlab |-> None, usz |-> None, ulw |-> None, ucol |-> None, ulab |-> None,
         elw |-> None, ecol |-> None, efill |-> None, fam |-> "sans-serif", wrongtype |-> FALSE]
St(m) == [kind |-> "H", nu |-> 0, nv |-> 4, es |-> Es(m)]
(* outlines *)
Drop1(o) == [o EXCEPT !.P.segs = Tail(@)]
Bent(o) == [o EXCEPT !.P.segs[1][1] = @ + 4000]
Shrunk(o) == [o EXCEPT !.R[1].r = @ \div 4]
Law(n, b) == b \/ (PrintT(<<"LAW", n, x>>) /\ FALSE)
OutlineLaws ==
  LET o == Outline(x.P, x.r, x.m, ONE, "#808080", "#f5f5f5")  c == Canvas(x.P, x.r, o) IN
  /\ Law("accepted", Outlines(St(x.m), Opts, c))
  /\ Law("dropped", ~Outlines(St(x.m), Opts, Canvas(x.P, x.r, Drop1(o))))
  /\ Law("bent", ~Outlines(St(x.m), Opts, Canvas(x.P, x.r, Bent(o))))
  /\ Law("shrunk", ~Outlines(St(x.m), Opts, Canvas(x.P, x.r, Shrunk(o))))
  \* the outline is taken for another edge only if that has the same hull
  /\ \A n \in Members : Law("other", Outlines(St(n), Opts, c) = (HullPairs(x.P, n) = HullPairs(x.P, x.m)))
  \* and not twice
  /\ Law("twice", ~Outlines(St(x.m), Opts, [c EXCEPT !.P = @ \o @]))
(* forces: pull 1/8, no centre *)
F(pull, push, epush) == [pull |-> pull, push |-> <<push, push>>, epush |-> epush, grav |-> <<0, 0>>, centers |-> <<<<0, 0>>, <<0, 0>>>>]
E8 == ONE \div 8
Big(P) == [i \in DOMAIN P |-> <<4 * P[i][1], 4 * P[i][2]>>]
SumF(P, M, f) == VSum([i \in DOMAIN P |-> ForceOn(P, M, f, 4, i)])
Small(v) == Abs(v[1]) <= 64 /\ Abs(v[2]) <= 64
Swap(f) == <<f[2], f[1], f[3], f[4]>>
ForceLaws ==
  LET P == Big(x.P)  M == <<x.m, {1, 3}>>  f == F(E8, E8, E8) IN
  /\ Law("push", Small(SumF(P, M, F(0, E8, 0)))) /\ Law("pull", Cardinality(x.m) # 2 \/ Small(SumF(P, <<x.m>>, F(E8, 0, 0))))
  /\ \A i \in DOMAIN P : Law("moved", Small(Sub(ForceOn([j \in DOMAIN P |-> VAdd(P[j], <<ONE, -ONE>>)], M, f, 4, i), ForceOn(P, M, f, 4, i))))
  /\ LET tr(i) == IF i = 1 THEN 2 ELSE IF i = 2 THEN 1 ELSE i  M2 == [k \in DOMAIN M |-> {tr(i) : i \in M[k]}]  P2 == Swap(P) IN
     \A i \in DOMAIN P : Law("renamed", Small(Sub(ForceOn(P2, M2, f, 4, tr(i)), ForceOn(P, M, f, 4, i))))
  /\ Cardinality(x.m) = 2 => LET a == CHOOSE a \in x.m : TRUE  b == CHOOSE b \in x.m : b # a
                                 Q == Simulate(P, <<x.m>>, F(E8, 0, 0), 4, ONE, 3) IN
                             /\ Norm(Sub(Q[a], Q[b])) < Norm(Sub(P[a], P[b]))
                             /\ \A i \in DOMAIN P \ x.m : Q[i] = P[i]
BallLaws == \A a \in {-2 * ONE, -ONE, 0, E8, 2 * ONE}, b \in {-2 * ONE, 0, ONE} :
  LET p == IntoBall(<<a, b>>) IN SumSq(p, 2) < ONE \div 2 /\ (a > 0) = (p[1] > 0) /\ (b < 0) = (p[2] < 0)
(* structures to draw: three vertices (bipartite: two and two), at most three edges *)
Pairs(k) == CASE k = "G" -> {<<0, 1>>, <<0, 2>>, <<1, 2>>, <<1, 1>>}
              [] k = "D" -> {<<0, 1>>, <<1, 0>>, <<0, 2>>, <<2, 1>>, <<2, 2>>}
              [] k = "B" -> {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>}
              [] k = "H" -> {<<0>>, <<0, 1>>, <<1, 2>>, <<0, 2>>, <<0, 1, 2>>, <<2>>}
Structures == UNION {{[k |-> k, es |-> es] : es \in {s \in SUBSET Pairs(k) : Cardinality(s) <= 3}} : k \in {"G", "D", "B", "H"}}
Forms == {"none", "one", "list", "short", "long"}
Option == {"vsz", "vlw", "vcol", "vlab", "usz", "ulw", "ucol", "ulab", "elw", "ecol", "efill"}
Init == x = [k |-> "start"]
Next ==
  \/ x.k = "start" /\ \/ \E P \in Placements, r \in Radii, m \in Members : x' = [k |-> "outline", P |-> P, r |-> r, m |-> m]
                      \/ \E s \in Structures : x' = [k |-> "structure", s |-> s]
                      \/ x' = [k |-> "ball"]
  \/ x.k = "structure" /\ \E o \in Option, f \in Forms, style \in {"line", "circle", "dotted"} :
       x' = [k |-> "draw", s |-> x.s, o |-> o, f |-> f, style |-> style]
Emit == x.k # "draw" \/ PrintT("TEST " \o ToJson([kind |-> x.s.k, es |-> SetToSeq(x.s.es), o |-> x.o, f |-> x.f, style |-> x.style]))
Ok == /\ x.k = "outline" => OutlineLaws /\ ForceLaws
      /\ x.k = "ball" => BallLaws
      /\ Emit
=============================================================================
