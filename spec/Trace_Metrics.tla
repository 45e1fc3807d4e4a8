---------------------------- MODULE Trace_Metrics ----------------------------
(***************************************************************************)
(* Verdicts for recorded metric calls and evaluator histories.             *)
(* Configuration records: [name, k, rn, rd, method, np, params].           *)
(***************************************************************************)
EXTENDS Evaluator, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, s
TOL == 64
Z == [n |-> 0]

Pad4(n) == (IF n < 10 THEN "000" ELSE IF n < 100 THEN "00" ELSE IF n < 1000 THEN "0" ELSE "") \o ToString(n)
RatioStr(a, b) == IF a = b THEN "1.0000" ELSE "0." \o Pad4((10000 * a) \div b)
ParamStr(c, p) ==
  CASE p = "k" -> "k@" \o ToString(c.k)
    [] p = "ratio" -> "ratio@" \o RatioStr(c.rn, c.rd)
    [] p = "method" -> "method@" \o c.method
    [] p = "n_points" -> "n_points@" \o ToString(c.np)
    [] p = "average" -> "average@" \o c.method
RECURSIVE Params(_, _)
Params(c, i) == IF i > Len(c.params) THEN "" ELSE (IF i = 1 THEN "" ELSE " | ") \o ParamStr(c, c.params[i]) \o Params(c, i + 1)
Marker(c) == IF Len(c.params) = 0 THEN c.name ELSE c.name \o " -> " \o Params(c, 1)

RowVal(c, y, sc) ==
  IF c.name = "pr_curve" THEN <<PRCurve(Ranked(y, sc), c.method, c.np), Levels(c.np)>> ELSE <<<<RowMetric(c, y, sc)>>>>
Vals(c, e) == TLCEval([i \in 1..Len(e.y) |-> RowVal(c, e.y[i], e.sc[i])])
NeedsBinary(c) == c.name \in {"precision", "recall"}
RowsOk(c, e) == (NeedsBinary(c) => Binary(e.y)) /\ ~e.shape
CfgOk(c, task) == IF task = "retrieval" THEN c.rd = 0 \/ (c.rn > 0 /\ c.rn <= c.rd) ELSE TRUE

ClassVal(c, e) ==
  CASE c.name = "accuracy" -> <<<<Accuracy(e.t, e.p)>>>>
    [] c.name = "f1_score" -> <<<<F1(e.t, e.p, c.method)>>>>
    [] c.name = "confusion_matrix" -> LET m == Confusion(e.t, e.p) IN [a \in 1..Len(m) |-> [b \in 1..Len(m) |-> m[a][b] * ONE]]

SameVal(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : CloseSeq(a[i], b[i], TOL)
SameRes(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameVal(a[i], b[i])
SameSeqRes(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameRes(a[i], b[i])

C(name, ok) == IF ok THEN {} ELSE {name}
V(ns, bad) == [s |-> ns, bad |-> bad]
(* the outcome of a call: accepted calls have their result checked, others must raise *)
Out(e, acc, good) == IF acc THEN (IF e.ok THEN good ELSE {"refused-valid-call"}) ELSE C("accepted-invalid-call", ~e.ok)
Both(e) == C("inputs-modified", e.pure)

Metric(st, e) ==          \* a direct call of a metric function
  LET c == e.c IN
  V(st, Both(e) \cup Out(e, RowsOk(c, e) /\ CfgOk(c, e.task),
    IF ~e.ok THEN {} ELSE
    IF c.name = "pr_curve" /\ Len(e.y) = 1
    THEN LET rel == Ranked(e.y[1], e.sc[1])  a == PRCurve(rel, c.method, c.np)  b == PRAlt(rel, c.method, c.np)  o == e.out[1] IN
         C("value", Len(o[1]) = c.np /\ CloseSeq(o[2], Levels(c.np), TOL)
                    /\ \A j \in 1..c.np : Close(o[1][j], a[j], TOL) \/ Close(o[1][j], b[j], TOL))
    ELSE LET rows == Vals(c, e) IN
         IF e.batch THEN C("rows", SameRes(e.out, rows)) ELSE C("value", SameRes(e.out, <<MeanRows(rows)>>))))
Class(st, e) == V(st, Both(e) \cup Out(e, ~e.shape, IF ~e.ok THEN {} ELSE C("value", SameRes(e.out, <<ClassVal(e.c, e)>>))))

(* evaluator histories: st.m is the machine, st.cfgs / st.v the configuration *)
Held(st, e) == C("earlier-result-changed", SameSeqRes(e.held, st.m.held)) \cup Both(e)
New(st, e) ==
  LET acc == e.tk /\ e.v >= 1 /\ e.v <= Len(e.cfgs) /\ \A i \in 1..Len(e.cfgs) : e.cfgs[i].known
      cs == e.cfgs IN
  V(IF acc THEN [m |-> NewEval(Len(cs)), cfgs |-> cs, v |-> e.v, task |-> e.task] ELSE st, Out(e, acc, {}))
AllRows(st, e) == \A i \in 1..Len(st.cfgs) : RowsOk(st.cfgs[i], e) /\ CfgOk(st.cfgs[i], st.task)
AddVE(st, e) ==
  LET c == st.cfgs[st.v]  acc == RowsOk(c, e) /\ CfgOk(c, st.task)
      ns == IF acc THEN [st EXCEPT !.m = AddV(st.m, Vals(c, e))] ELSE st IN
  V(ns, Out(e, acc, {}) \cup Held(ns, e))
AddTE(st, e) ==
  LET acc == AllRows(st, e)
      ns == IF acc THEN [st EXCEPT !.m = AddT(st.m, [i \in 1..Len(st.cfgs) |-> Vals(st.cfgs[i], e)])] ELSE st IN
  V(ns, Out(e, acc, {}) \cup Held(ns, e))
EpochVE(st, e) ==
  LET acc == CanEpochV(st.m)  ns == IF acc THEN [st EXCEPT !.m = EpochV(st.m)] ELSE st IN
  V(ns, Out(e, acc, IF e.ok THEN C("epoch-result", SameRes(e.out, <<ResV(st.m)>>)) ELSE {}) \cup Held(ns, e))
Markers(st) == [i \in 1..Len(st.cfgs) |-> Marker(st.cfgs[i])]
EpochTE(st, e) ==
  LET acc == CanEpochT(st.m)  ns == IF acc THEN [st EXCEPT !.m = EpochT(st.m)] ELSE st IN
  V(ns, Out(e, acc, IF e.ok THEN C("epoch-result", SameRes(e.out, ResT(st.m))) \cup C("names", e.keys = Markers(st)) ELSE {}) \cup Held(ns, e))
ImmV(c, e) == IF "t" \in DOMAIN e THEN ClassVal(c, e) ELSE MeanRows(Vals(c, e))
Imm(st, e) ==
  LET acc == IF "t" \in DOMAIN e THEN ~e.shape ELSE (IF e.mode = "validate" THEN RowsOk(st.cfgs[st.v], e) ELSE AllRows(st, e))
      exp == IF e.mode = "validate" THEN <<ImmV(st.cfgs[st.v], e)>> ELSE [i \in 1..Len(st.cfgs) |-> ImmV(st.cfgs[i], e)]
      ns == IF acc /\ e.ok THEN [st EXCEPT !.m = Hold(st.m, exp)] ELSE st IN
  V(ns, Out(e, acc, IF e.ok THEN C("immediate-result", SameRes(e.out, exp))
                               \cup (IF e.mode = "test" THEN C("names", e.keys = Markers(st)) ELSE {}) ELSE {}) \cup Held(ns, e))
Step(st, e) ==
  CASE e.op = "metric" -> Metric(st, e)
    [] e.op = "class" -> Class(st, e)
    [] e.op = "new" -> New(st, e)
    [] e.op = "addv" -> AddVE(st, e)
    [] e.op = "addt" -> AddTE(st, e)
    [] e.op = "epochv" -> EpochVE(st, e)
    [] e.op = "epocht" -> EpochTE(st, e)
    [] e.op = "imm" -> Imm(st, e)

Report(r) == r.bad = {} \/ PrintT("FAIL " \o ToString(tr) \o " " \o ToString(l) \o " " \o ToString(r.bad))
TraceInit == tr \in 1..Len(Traces) /\ l = 1 /\ s = Z
TraceNext == /\ l <= Len(Traces[tr].ev)
             /\ LET r == Step(s, Traces[tr].ev[l]) IN Report(r) /\ s' = r.s
             /\ l' = l + 1
             /\ tr' = tr
=============================================================================
