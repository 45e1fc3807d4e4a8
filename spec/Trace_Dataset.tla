---------------------------- MODULE Trace_Dataset ----------------------------
(***************************************************************************)
(* Verdicts for recorded dataset accesses.                                 *)
(***************************************************************************)
EXTENDS Dataset, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, s
C(name, ok) == IF ok THEN {} ELSE {name}
V(ns, bad) == [s |-> ns, bad |-> bad]
New(e) == V([NewData(e.items, e.nf) EXCEPT !.disk = e.disk, !.net = e.net],
            C("construction-loads", e.asked = <<>> /\ e.loads = <<>>) \cup C("content", e.keys = e.declared))
Env(st, e) == V(CASE e.op = "net" -> [st EXCEPT !.net[e.i] = e.v]
                  [] e.op = "disk" -> [st EXCEPT !.disk[e.i] = e.v]
                  [] e.op = "loader" -> [st EXCEPT !.lbad[e.i] = e.b]
                  [] e.op = "pipe" -> [st EXCEPT !.pbad[e.i] = e.k], {})
Access(st, e) ==
  LET r == IF e.op = "get" THEN Get(st, e.i) ELSE Raw(st, e.i)  x == r[2] IN
  V(r[1], C("outcome", e.ok = x.ok) \cup C("files-asked", e.asked = x.asked) \cup C("loader-calls", e.loads = x.loads)
          \cup C("pipes", e.pipes = x.pipes) \cup (IF e.ok /\ x.ok THEN C("value", e.val = x.val) ELSE {})
          \cup C("files", e.disk = r[1].disk) \cup C("sources", e.srcok) \cup C("loader-saw-verified-files", e.seen))
(* listing, printing, asking whether an item needs loading, unknown items *)
Look(st, e) == V(st, C("listing-loads", e.asked = <<>> /\ e.loads = <<>> /\ e.pipes = <<>>) \cup C("files", e.disk = st.disk)
                     \cup CASE e.op = "content" -> C("content", e.keys = e.declared)
                            [] e.op = "needs" -> C("needs-to-load", e.val = (st.items[e.i].kind = "load"))
                            [] e.op = "unknown" -> C("accepted-unknown-item", ~e.ok)
                            [] e.op = "repr" -> C("repr", e.ok))
(* the datasets shipped with the library: declared keys, fixed values, addresses asked on first access *)
Shipped(st, e) == V(st, C("construction-loads", e.pre = <<>>) \cup C("content", e.keys = e.declared) \cup C("name", e.name = e.wname)
                        \cup C("fixed-values", e.fixed = e.wfixed) \cup C("addresses", e.urls = e.wurls) \cup C("failed-fetch", e.errors = e.werrors)
                        \cup C("files-left", e.left = <<>>) \cup C("loaded-values", e.values = e.wvalues))
Step(st, e) ==
  CASE e.op = "new" -> New(e)
    [] e.op \in {"net", "disk", "loader", "pipe"} -> Env(st, e)
    [] e.op \in {"get", "raw"} -> Access(st, e)
    [] e.op \in {"content", "needs", "unknown", "repr"} -> Look(st, e)
    [] e.op = "shipped" -> Shipped(st, e)
Report(r) == r.bad = {} \/ PrintT("FAIL " \o ToString(tr) \o " " \o ToString(l) \o " " \o ToString(r.bad))
TraceInit == tr \in 1..Len(Traces) /\ l = 1 /\ s = <<>>
TraceNext == /\ l <= Len(Traces[tr].ev)
             /\ LET r == Step(s, Traces[tr].ev[l]) IN Report(r) /\ s' = r.s
             /\ l' = l + 1
             /\ tr' = tr
=============================================================================
