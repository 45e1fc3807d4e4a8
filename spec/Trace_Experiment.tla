-------------------------- MODULE Trace_Experiment --------------------------
(***************************************************************************)
(* Verdicts for recorded experiments.  st.s is the Experiment state,       *)
(* st.task the configuration, st.tests the tests since the run began.      *)
(* task: [kind, y, train, val, test, nb, metrics, index, built]:           *)
(*   kind "vertex": y labels, train/val/test item sequences (1-based)      *)
(*   kind "rec": y rows of relevance, mask rows of excluded items          *)
(*   nb optimiser steps per epoch, built: the structure is built per trial *)
(***************************************************************************)
EXTENDS Experiment, Metrics, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, s
Z == [s |-> Idle, task |-> <<>>, tests |-> <<>>, sched |-> 0, params |-> <<>>, value |-> 0]
C(name, ok) == IF ok THEN {} ELSE {name}
V(ns, bad) == [s |-> ns, bad |-> bad]
TOL == 64

(* what a metric must give for the recorded predictions *)
Pick(q, ix) == [i \in 1..Len(ix) |-> q[ix[i]]]
Masked(task, rows) == [i \in 1..Len(rows) |-> [j \in 1..Len(rows[i]) |-> IF task.mask[i][j] = 1 THEN -1000 ELSE rows[i][j]]]
Value(task, m, pred, items) ==
  IF task.kind = "rec" THEN MeanOf(RowsMetric(m, task.y, Masked(task, pred)))
  ELSE LET t == Pick(task.y, items)  p == Pick(pred, items) IN IF m.name = "accuracy" THEN Accuracy(t, p) ELSE F1(t, p, m.method)
Struct(task, t) == IF task.built THEN t + 1 ELSE 0

(* a trial that has finished its epochs completes silently *)
Settle(x) == IF CanComplete(x) THEN Complete(x) ELSE x

Trial(st, e) ==
  LET x == Settle(st.s) IN
  IF ~CanStart(x) THEN V([st EXCEPT !.s = x], {"trial-out-of-turn"})
  ELSE V([st EXCEPT !.s = Start(x), !.params = Append(@, e.p), !.sched = 0],
         C("trial-number", e.t = x.t + 1))
TrainEv(st, e) ==
  IF ~CanTrain(st.s) THEN V(st, {"trained-out-of-turn"})
  ELSE V([st EXCEPT !.s = Train(@)],
         C("trained-model", e.t = st.s.t /\ e.steps = st.s.e * st.task.nb /\ e.training)
         \cup C("trained-structure", e.struct = Struct(st.task, st.s.t))
         \cup C("training-data", e.data = st.task.trained)
         \cup C("schedule", st.sched = st.s.e))
Sched(st) == V([st EXCEPT !.sched = @ + 1], {})
Valid(st, e) ==
  IF ~CanValidate(st.s) THEN V(st, {"validated-out-of-turn"})
  ELSE V([st EXCEPT !.s = Validate(@, e.score)],
         C("validated-model", e.t = st.s.t /\ e.steps = (st.s.e + 1) * st.task.nb /\ ~e.training /\ ~e.grad)
         \cup C("validated-structure", e.struct = Struct(st.task, st.s.t))
         \cup C("score", Close(e.score, Value(st.task, st.task.metrics[st.task.index], e.pred, st.task.val), TOL)))
PruneEv(st) == V([st EXCEPT !.s = Prune(@)], C("pruned-out-of-turn", st.s.ph = "trial"))
FailEv(st) == V([st EXCEPT !.s = Fail(@)], {})
TestEv(st, e) ==
  V([st EXCEPT !.tests = Append(@, <<e.t, e.steps>>)],
    C("test-mode", ~e.training /\ ~e.grad)
    \cup C("test-structure", e.struct = Struct(st.task, e.t))
    \cup C("test-value", Len(e.res) = Len(st.task.metrics) /\ \A i \in 1..Len(e.res) : Close(e.res[i], Value(st.task, st.task.metrics[i], e.pred, st.task.test), TOL)))
(* an extra test of the kept model, or of a given model on given data *)
Retest(st, e) ==
  LET r == TestEv(st, e) IN
  V(st, (r.bad \ {IF e.given THEN "test-structure" ELSE "-"}) \cup (IF e.given THEN {} ELSE C("test-model", st.s.ph = "done" /\ <<e.t, e.steps>> = <<st.s.kept[1], st.s.kept[2] * st.task.nb>>)))
KeptOf(st) == IF st.s.kept = <<>> THEN <<>> ELSE <<st.s.kept[1], st.s.kept[2] * st.task.nb>>
End(st, e) ==
  LET x == Settle(st.s) IN
  IF ~e.ok THEN V([st EXCEPT !.s = [x EXCEPT !.ph = "idle"]],
                  C("run-failed", x.ph = "idle" \/ (CanFinish(x) /\ x.full = {}))
                  \cup C("failed-run-replaced-model", e.kept = KeptOf(st)) \cup C("failed-run-tested", st.tests = <<>>))
  ELSE IF ~CanFinish(x) THEN V(st, {"run-ended-early"})
  ELSE LET zs == {z \in Finishes(x) : z.ph = "done" /\ <<z.kept[1], z.kept[2] * st.task.nb>> = e.kept} IN
       IF zs = {} THEN V([st EXCEPT !.s = x], {"kept-model"})
       ELSE LET z == CHOOSE q \in zs : TRUE IN
            V([st EXCEPT !.s = z],
              C("reported-trial", e.number = z.kept[1]) \cup C("reported-score", e.value = z.kept[3])
              \cup C("reported-settings", e.params = st.params[z.kept[1] + 1] /\ e.rebuilt = <<z.kept[1], st.params[z.kept[1] + 1]>>)
              \cup C("kept-buffers", e.buf = e.kept[2]) \cup C("kept-structure", e.struct = Struct(st.task, z.kept[1]))
              \cup C("test-model", st.tests = <<e.kept>>)
              \cup C("files-left", \A i \in 1..Len(e.files) : e.files[i] \in z.files)
              \cup C("logged", Close(e.logv, e.value, 800) /\ Len(e.logt) = Len(e.rest) /\ \A i \in 1..Len(e.logt) : Close(e.logt[i], e.rest[i], 800)))
Tree(q) == {q[i] : i \in 1..Len(q)}
Open(st, e) ==
  V(st, C("opened", e.ok = (e.where # "nothing")) \cup C("work-folder", OpenOk(e.where, e.over, e.root, e.study, Tree(e.before), Tree(e.after)))
        \cup C("study-folder", ~e.ok \/ (e.named /\ e.made)))
Ran(st, e) == V(st, C("run-failed", e.ok) \cup C("work-folder", RunOk(e.root, e.study, Tree(e.before), Tree(e.after))))
Step(st, e) ==
  CASE e.op = "task" -> V([Z EXCEPT !.task = e], C("fresh-task", e.kept = <<>> /\ e.files = <<>>))
    [] e.op = "run" -> V([st EXCEPT !.s = Run(@, e.dir, e.max, e.n), !.tests = <<>>, !.params = <<>>], {})
    [] e.op = "trial" -> Trial(st, e)
    [] e.op = "train" -> TrainEv(st, e)
    [] e.op = "sched" -> Sched(st)
    [] e.op = "valid" -> Valid(st, e)
    [] e.op = "prune" -> PruneEv(st)
    [] e.op = "fail" -> FailEv(st)
    [] e.op = "test" -> TestEv(st, e)
    [] e.op = "retest" -> Retest(st, e)
    [] e.op = "end" -> End(st, e)
    [] e.op = "open" -> Open(st, e)
    [] e.op = "ran" -> Ran(st, e)
    [] e.op = "repeat" -> V(st, C("same-seed-same-settings", e.a = e.b /\ Len(e.a) > 0))
Report(r) == r.bad = {} \/ PrintT("FAIL " \o ToString(tr) \o " " \o ToString(l) \o " " \o ToString(r.bad))
TraceInit == tr \in 1..Len(Traces) /\ l = 1 /\ s = Z
TraceNext == /\ l <= Len(Traces[tr].ev)
             /\ LET r == Step(s, Traces[tr].ev[l]) IN Report(r) /\ s' = r.s
             /\ l' = l + 1
             /\ tr' = tr
=============================================================================
