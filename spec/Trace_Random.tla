---------------------------- MODULE Trace_Random ----------------------------
(***************************************************************************)
(* Verdicts for recorded generator calls.  s.h is the seeded history,      *)
(* s.seen the <<history, result>> pairs so far.                            *)
(***************************************************************************)
EXTENDS Random, Fixed, SequencesExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, s
Z == [h |-> Start, seen |-> {}]
Rng(q) == {q[i] : i \in 1..Len(q)}
C(name, ok) == IF ok THEN {} ELSE {name}
V(ns, bad) == [s |-> ns, bad |-> bad]

(* a draw is a function of the seeded history *)
Remember(st, call, res) ==
  LET h == Draw(st.h, call) IN
  [s |-> [h |-> h, seen |-> IF h.seed = -1 THEN st.seen ELSE st.seen \cup {<<h, res>>}],
   bad |-> C("same-seed-same-result", \A p \in st.seen : p[1] = h => p[2] = res)]
Edges(r, q) == IF Hyper(r) THEN {Rng(q[i]) : i \in 1..Len(q)} ELSE Rng(q)
Shape(r, e) ==
  C("vertex-count", e.nv = (IF r.gen = "bigraph" THEN <<r.u, r.n>> ELSE <<r.n>>))
  \cup C("edge-count", e.ne = Len(e.edges) /\ Cardinality(Edges(r, e.edges)) = Len(e.edges))
  \cup C("weights", e.unit)
  \cup C("structure", Allowed(r, Edges(r, e.edges)))
Gen(st, e) ==
  IF e.hang THEN V(st, {"does-not-terminate"})
  ELSE IF ~Feasible(e.r) THEN V(st, C("accepted-infeasible-request", ~e.ok))
  ELSE IF ~e.ok THEN V(st, {"refused-feasible-request"})
  ELSE LET m == Remember(st, <<e.fn, e.r>>, e.edges) IN V(m.s, m.bad \cup Shape(e.r, e))
Number(st, e) == LET m == Remember(st, <<e.fn>>, e.val) IN V(m.s, m.bad)
Seed(st, e) == V([st EXCEPT !.h = SetSeed(@, e.seed)], C("seed-value", e.got = e.seed))

(* many structures of one request: validity, and the rate of every edge (so each possible edge occurs) *)
Many(st, e) ==
  LET n == Len(e.outs)
      E == [i \in 1..n |-> Edges(e.r, e.outs[i])]
      c(x) == Cardinality({i \in 1..n : x \in E[i]}) IN
  V(st, C("structure", \A i \in 1..n : Allowed(e.r, E[i]) /\ Cardinality(E[i]) = Len(e.outs[i]))
        \cup C("edge-rate", \A x \in Possible(e.r) : LET q == Rate(e.r, x) IN Near(c(x), n, q[1], q[2])))
(* sizes of many single hyperedges: a declared preference for small or large ones *)
Tendency(st, e) ==
  LET cnt(k) == Cardinality({i \in 1..Len(e.outs) : Len(e.outs[i][1]) = k})
      ks == 2..e.r.n IN
  V(st, C("structure", \A i \in 1..Len(e.outs) : Allowed(e.r, Edges(e.r, e.outs[i])))
        \cup C("size-tendency", IF e.low THEN cnt(2) > cnt(e.r.n) /\ \A k \in 2..(e.r.n - 1) : cnt(k) + 25 >= cnt(k + 1)
                                ELSE cnt(2) < cnt(e.r.n) /\ \A k \in 2..(e.r.n - 1) : cnt(k) <= cnt(k + 1) + 25)
        \cup C("every-hyperedge-occurs", \A x \in Possible(e.r) : \E i \in 1..Len(e.outs) : x \in Edges(e.r, e.outs[i])))

(* features: the indicator row of the label's rank, plus noise times standard normal deviates dev *)
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Features(st, e) ==
  IF ~e.ok THEN V(st, {"refused-feasible-request"})
  ELSE LET cls == Sorted(Rng(e.lab))
           hot(i, j) == IF cls[j] = e.lab[i] THEN ONE ELSE 0
           N == Len(e.lab)  K == Len(cls)
           dev(i, j) == e.out[i][j] - hot(i, j) IN
       IF ~(Len(e.out) = N /\ \A i \in 1..N : Len(e.out[i]) = K) THEN V(st, {"feature-shape"})
       ELSE LET m == Remember(st, <<"features", e.lab, e.noise>>, e.out) IN
            V(m.s, m.bad \cup C("inputs-modified", e.pure)
                 \cup C("feature-center", \A i \in 1..N, j \in 1..K : Abs(dev(i, j)) <= 7 * e.noise)
                 \cup C("feature-noise", e.noise = 0 \/ N * K < 40 \/
                      LET big == Cardinality({x \in (1..N) \X (1..K) : Abs(dev(x[1], x[2])) > e.noise})
                          pos == Cardinality({x \in (1..N) \X (1..K) : dev(x[1], x[2]) > 0}) IN
                      Near(big, N * K, 32, 100) /\ Near(pos, N * K, 1, 2)))
Step(st, e) ==
  CASE e.op = "gen" -> Gen(st, e)
    [] e.op = "number" -> Number(st, e)
    [] e.op = "seed" -> Seed(st, e)
    [] e.op = "many" -> Many(st, e)
    [] e.op = "tendency" -> Tendency(st, e)
    [] e.op = "features" -> Features(st, e)
    [] e.op = "invalid" -> V(st, C("accepted-infeasible-request", ~e.ok))
Report(r) == r.bad = {} \/ PrintT("FAIL " \o ToString(tr) \o " " \o ToString(l) \o " " \o ToString(r.bad))
TraceInit == tr \in 1..Len(Traces) /\ l = 1 /\ s = Z
TraceNext == /\ l <= Len(Traces[tr].ev)
             /\ LET r == Step(s, Traces[tr].ev[l]) IN Report(r) /\ s' = r.s
             /\ l' = l + 1
             /\ tr' = tr
=============================================================================
