----------------------------- MODULE Trace_Store -----------------------------
EXTENDS Store, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, s
Report(r) == r.bad = {} \/ PrintT("FAIL " \o ToString(tr) \o " " \o ToString(l) \o " " \o ToString(r.bad))
TraceInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ s = EmptyStore
TraceNext == /\ l <= Len(Traces[tr].ev)
             /\ LET r == Step(s, Traces[tr].ev[l]) IN
                /\ Report(r)
                /\ s' = r.s
             /\ l' = l + 1
             /\ tr' = tr
=============================================================================
