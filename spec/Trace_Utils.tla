---------------------------- MODULE Trace_Utils ----------------------------
(* Verdicts for recorded calls of the utilities. *)
EXTENDS Utils, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, s
Z == [ls |-> <<>>, num |-> <<>>, row |-> <<>>, t |-> Term0]
C(name, ok) == IF ok THEN {} ELSE {name}
V(ns, bad) == [s |-> ns, bad |-> bad]
NearHalf(k, n, p) == LET d == 16 * k - n * p IN d * d <= 100 * n * p * (16 - p) + 2560 * 16 \* 10 sigma and some slack

(* pairs <<label, number>> of the returned maps *)
Pairs(m) == {<<v, m[v]>> : v \in DOMAIN m}
Code(st, ls) == [a \in 1..Len(ls) |-> [i \in 1..Len(ls[a]) |-> [j \in 1..Len(ls[a][i]) |-> st.num[ls[a][i][j] + 1]]]]
Call(st, e, out) ==
  V([st EXCEPT !.ls = out],
    C("argument-not-the-last-result", e.in = st.ls) \cup C("inputs-modified", e.pure) \cup
    (IF ~e.ok THEN {"refused"} ELSE C("result", e.out = out) \cup C("result-type", e.types)))
Convert(st, e, F(_)) == Call(st, e, [i \in 1..Len(st.ls) |-> F(st.ls[i])])
DoRemap(st, e) ==
  LET out == Remap(st.ls, e.bip)
      m == Maps(st.ls, e.bip) IN
  V([st EXCEPT !.ls = Code(st, out)],
    C("argument-not-the-last-result", e.in = st.ls) \cup C("inputs-modified", e.pure) \cup
    (IF ~e.ok THEN {"refused"}
     ELSE C("renumbering", e.out = out) \cup C("result-type", e.types)
          \cup (IF e.ret THEN C("returned-maps", Len(e.maps) = Len(m) /\ \A k \in 1..Len(m) : Items(e.maps[k]) = Pairs(m[k]) /\ Len(e.maps[k]) = Cardinality(DOMAIN m[k]))
                ELSE C("returned-maps", e.maps = <<>>))))
Sparse(st, e) ==
  LET pos(q) == {<<q[i][1], q[i][2]>> : i \in 1..Len(q)}
      fun(q) == [x \in pos(q) |-> q[CHOOSE i \in 1..Len(q) : <<q[i][1], q[i][2]>> = x][3]]
      m == fun(e.in)  out == fun(e.out) IN
  V(st, IF ~e.ok THEN C("refused", e.p \notin 0..16)
        ELSE C("accepted-bad-probability", e.p \in 0..16)
             \cup C("inputs-modified", e.pure) \cup C("shape", e.shape)
             \cup C("sparse-dropout", Cardinality(pos(e.out)) = Len(e.out) /\ Dropped(m, e.p, e.fill, out))
             \cup C("drop-rate", Len(e.in) < 100 \/ NearHalf(Cardinality({x \in DOMAIN m : At(out, x) # m[x]}), Len(e.in), e.p)))
(* one in e.inv of many entries: the mean is n / inv, 8 sigma *)
Rare(st, e) ==
  LET mean == e.n \div e.inv  d == IF e.dropped > mean THEN e.dropped - mean ELSE mean - e.dropped IN
  V(st, C("drop-rate", d <= 8 \/ (d < 10000 /\ (d - 8) * (d - 8) <= 64 * mean)))
Pascal(st, e) ==
  LET row == IF st.row = <<>> THEN FirstRow ELSE NextRow(st.row) IN
  V([st EXCEPT !.row = row], C("binomial", e.out = row))
Terminal(st, e, t) ==
  V([st EXCEPT !.t = t], C("terminal", e.term = t.term) \cup C("files", \A f \in 1..3 : e.files[f] = t.files[f])
                         \cup C("accepted", e.ok = (e.op # "bad")))
Step(st, e) ==
  CASE e.op = "start" -> V([st EXCEPT !.ls = e.ls, !.num = e.num], {})
    [] e.op = "to_adj" -> Convert(st, e, ToAdj)
    [] e.op = "to_dict" -> Convert(st, e, ToAdj)
    [] e.op = "to_edges" -> Convert(st, e, ToEdges)
    [] e.op = "remap" -> DoRemap(st, e)
    [] e.op = "sparse" -> Sparse(st, e)
    [] e.op = "rare" -> Rare(st, e)
    [] e.op = "pascal" -> Pascal(st, e)
    [] e.op = "tee" -> Terminal(st, e, Tee(st.t, e.f))
    [] e.op = "say" -> Terminal(st, e, Say(st.t, e.m))
    [] e.op = "bad" -> Terminal(st, e, st.t)
    [] e.op = "reset" -> Terminal(st, e, Reset(st.t))
Report(r) == r.bad = {} \/ PrintT("FAIL " \o ToString(tr) \o " " \o ToString(l) \o " " \o ToString(r.bad))
TraceInit == tr \in 1..Len(Traces) /\ l = 1 /\ s = Z
TraceNext == /\ l <= Len(Traces[tr].ev)
             /\ LET r == Step(s, Traces[tr].ev[l]) IN Report(r) /\ s' = r.s
             /\ l' = l + 1
             /\ tr' = tr
=============================================================================
