----------------------------- MODULE Trace_Split -----------------------------
(***************************************************************************)
(* Verdicts for recorded splits and dataset samples.  Items of a labelled  *)
(* split are 1-based, users are 1-based, items of a bipartite graph keep   *)
(* their index.  s.last is the previous result (for repeated calls with    *)
(* the same random state), s.tr / s.te the interactions of the datasets.   *)
(***************************************************************************)
EXTENDS Split, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, s
Z == [last |-> <<>>, tr |-> <<>>, te |-> <<>>, list |-> <<>>]
Rng(q) == {q[i] : i \in 1..Len(q)}
C(name, ok) == IF ok THEN {} ELSE {name}
V(ns, bad) == [s |-> ns, bad |-> bad]
Same(st, e, r) == IF e.same THEN C("same-random-state", st.last = <<r>>) ELSE {}

Parts(e) == [train |-> Rng(e.train), val |-> Rng(e.val), test |-> Rng(e.test)]
Split(st, e) ==
  IF ~Feasible(e.req) THEN V(st, C("accepted-infeasible-request", ~e.ok) \cup C("inputs-modified", e.pure))
  ELSE IF ~e.ok THEN V(st, {"refused-valid-request"})
  ELSE V([st EXCEPT !.last = <<<<e.train, e.val, e.test>>>>],
         C("split", IsSplit(e.lab, e.req, Parts(e))) \cup C("validation-part", e.hasval = HasVal(e.req))
         \cup C("mask-shape", e.shapes) \cup C("inputs-modified", e.pure) \cup Same(st, e, <<e.train, e.val, e.test>>))
(* many splits of the same request: every item lands in every part that takes some of its class *)
Reach(st, e) ==
  LET ps == e.parts  U(f) == UNION {Rng(ps[i][f]) : i \in 1..Len(ps)} IN
  V(st, C("split", \A i \in 1..Len(ps) : IsSplit(e.lab, e.req, [train |-> Rng(ps[i][1]), val |-> Rng(ps[i][2]), test |-> Rng(ps[i][3])]))
        \cup C("choice-is-random", \A i \in 1..Len(e.lab) :
                 LET z == Sizes(e.req, Cardinality(Class(e.lab, e.lab[i]))) IN
                 (z[1] > 0 => i \in U(1)) /\ (z[2] > 0 => i \in U(2)) /\ (z[3] > 0 => i \in U(3))))

(* rows: adjacency rows <<user, item..>> with 1-based user; a missing row is an empty one *)
RowsOk(adj, rows) == /\ \A i \in 1..Len(rows) : Len(rows[i]) >= 1 /\ rows[i][1] \in 1..Len(adj)
                     /\ \A i, j \in 1..Len(rows) : i # j => rows[i][1] # rows[j][1]
                     /\ \A i \in 1..Len(rows) : Cardinality(Rng(SubSeq(rows[i], 2, Len(rows[i])))) = Len(rows[i]) - 1
ItemsOf(adj, rows) == [u \in 1..Len(adj) |-> UNION {Rng(SubSeq(rows[i], 2, Len(rows[i]))) : i \in {k \in 1..Len(rows) : rows[k][1] = u}}]
UISplit(st, e) ==
  IF ~e.ok THEN V(st, {"refused-valid-request"})
  ELSE LET adj == [u \in 1..Len(e.adj) |-> Rng(e.adj[u])] IN
       IF ~(RowsOk(adj, e.train) /\ RowsOk(adj, e.test)) THEN V(st, {"rows"})
       ELSE LET a == ItemsOf(adj, e.train)  b == ItemsOf(adj, e.test) IN
            V([st EXCEPT !.last = <<<<e.train, e.test>>>>, !.tr = a, !.te = b],
              C("user-split", IsUISplit(adj, e.req, a, b)) \cup C("graph-modified", e.pure) \cup Same(st, e, <<e.train, e.test>>))

(* datasets built on interaction lists of pairs <<user, item>>, users 1-based *)
AdjOf(nu, list) == [u \in 1..nu |-> {list[i][2] : i \in {k \in 1..Len(list) : list[k][1] = u}}]
Train(st, e) ==
  IF ~e.ok THEN V(st, {"refused-valid-request"})
  ELSE LET a == AdjOf(e.nu, e.list) IN
       V([st EXCEPT !.last = <<e.out>>],
         C("length", e.len = Len(e.list)) \cup C("inputs-modified", e.pure) \cup Same(st, e, e.out)
         \cup C("sample", \A i \in 1..Len(e.out) : IsSample(a, e.ni, e.out[i][1], e.out[i][2], e.out[i][3]))
         \cup (IF e.strict THEN C("pair", Len(e.out) = Len(e.idx) /\ \A i \in 1..Len(e.out) : <<e.out[i][1], e.out[i][2]>> = e.list[e.idx[i]]) ELSE {}))
(* counted samples: each of m equally likely values is seen (c*m - n)^2 <= 100 n m times of n *)
Uniform(q, m, dom) == LET n == Len(q) IN
  \A v \in dom : LET d == Cardinality({i \in 1..n : q[i] = v}) * m - n IN d < 40000 /\ d > -40000 /\ d * d <= 100 * n * m
Counts(st, e) ==
  LET a == AdjOf(e.nu, e.list)
      of(u) == SelectSeq(e.out, LAMBDA t : t[1] = u) IN
  V(st, C("uniform-user", e.strict \/ Uniform([i \in 1..Len(e.out) |-> e.out[i][1]], e.nu, 1..e.nu))
        \cup C("uniform-positive", e.strict \/ \A u \in 1..e.nu : LET q == of(u) IN Uniform([i \in 1..Len(q) |-> q[i][2]], Cardinality(a[u]), a[u]))
        \cup C("uniform-negative", \A u \in 1..e.nu : LET q == of(u)  d == (0..(e.ni - 1)) \ a[u] IN Uniform([i \in 1..Len(q) |-> q[i][3]], Cardinality(d), d)))
Eval(st, e) ==
  IF ~e.ok THEN V(st, {"refused-valid-request"})
  ELSE LET a == AdjOf(e.nu, e.trlist)  b == AdjOf(e.nu, e.list) IN
       V(st, C("length", e.len = e.nu) \cup C("inputs-modified", e.pure) \cup C("rows-shape", e.shapes)
             \cup C("eval-row", Len(e.out) = Len(e.idx) /\ \A i \in 1..Len(e.out) :
                      /\ e.out[i][1] = e.idx[i] /\ Rng(e.out[i][2]) = a[e.idx[i]] /\ Rng(e.out[i][3]) = b[e.idx[i]]))
Need(st, e) == V(st, C("accepted-invalid-request", ~e.ok))
Step(st, e) ==
  CASE e.op = "split" -> Split(st, e)
    [] e.op = "reach" -> Reach(st, e)
    [] e.op = "uisplit" -> UISplit(st, e)
    [] e.op = "train" -> Train(st, e)
    [] e.op = "counts" -> Counts(st, e)
    [] e.op = "eval" -> Eval(st, e)
    [] e.op = "invalid" -> Need(st, e)
Report(r) == r.bad = {} \/ PrintT("FAIL " \o ToString(tr) \o " " \o ToString(l) \o " " \o ToString(r.bad))
TraceInit == tr \in 1..Len(Traces) /\ l = 1 /\ s = Z
TraceNext == /\ l <= Len(Traces[tr].ev)
             /\ LET r == Step(s, Traces[tr].ev[l]) IN Report(r) /\ s' = r.s
             /\ l' = l + 1
             /\ tr' = tr
=============================================================================
