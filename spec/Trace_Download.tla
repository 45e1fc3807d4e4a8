---------------------------- MODULE Trace_Download ----------------------------
(***************************************************************************)
(* Verdicts for recorded downloads.  s.f is a sequence of files (machines  *)
(* of Download.tla); a "fetch" names the file and logs the answers the     *)
(* servers gave and whom they were asked from.                             *)
(***************************************************************************)
EXTENDS Download, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, s
C(name, ok) == IF ok THEN {} ELSE {name}
V(ns, bad) == [s |-> ns, bad |-> bad]
Obs(ns, e) == C("target", e.t = [i \in 1..Len(ns) |-> ns[i].t]) \cup C("legacy", e.g = [i \in 1..Len(ns) |-> ns[i].g])
              \cup C("other-files", e.others)
Setup(e) == V([i \in 1..Len(e.t) |-> File(e.t[i], e.g[i], e.off[i], e.inc[i])], {})
Put(st, e) ==      \* the environment changes a file between calls
  V([st EXCEPT ![e.f] = IF e.where = "target" THEN [@ EXCEPT !.t = e.c] ELSE [@ EXCEPT !.g = e.c]], {})
Fetch(st, e) ==
  LET r == Run(st[e.f], e.answers)  ns == [st EXCEPT ![e.f] = r] IN
  V(ns, C("gave-up-early", ~Waiting(r)) \cup C("sources-asked", e.asked = r.asked)
        \cup C("outcome", e.ok = (r.res = "ok")) \cup Obs(ns, e))
CheckFile(st, e) ==
  V(st, C("check-outcome", IF st[e.f].t = "absent" THEN ~e.ok ELSE e.ok /\ e.match = (st[e.f].t = "good"))
        \cup C("sources-asked", e.asked = <<>>) \cup Obs(st, e))
Step(st, e) ==
  CASE e.op = "setup" -> Setup(e)
    [] e.op = "put" -> Put(st, e)
    [] e.op = "fetch" -> Fetch(st, e)
    [] e.op = "check" -> CheckFile(st, e)
Report(r) == r.bad = {} \/ PrintT("FAIL " \o ToString(tr) \o " " \o ToString(l) \o " " \o ToString(r.bad))
TraceInit == tr \in 1..Len(Traces) /\ l = 1 /\ s = <<>>
TraceNext == /\ l <= Len(Traces[tr].ev)
             /\ LET r == Step(s, Traces[tr].ev[l]) IN Report(r) /\ s' = r.s
             /\ l' = l + 1
             /\ tr' = tr
=============================================================================
