----------------------------- MODULE MC_Download -----------------------------
(***************************************************************************)
(* Every fault sequence of one call (no view: histories are not merged)    *)
(* from every prior state; with MC_CALLS = 2 a second call follows on the  *)
(* state the first left behind.                                            *)
(***************************************************************************)
EXTENDS Download, Json, IOUtils
VARIABLES m, m0, hist, calls
MaxCalls == IF "MC_CALLS" \in DOMAIN IOEnv THEN atoi(IOEnv.MC_CALLS) ELSE 1
Contents == {"absent", "good", "bad"}
vars == <<m, m0, hist, calls>>
Init == /\ \E t, g \in Contents : \E off, inc \in BOOLEAN : m = File(t, g, off, inc)
        /\ m0 = m /\ hist = <<>> /\ calls = 0
Call == /\ m.ph \in {"idle", "done"} /\ calls < MaxCalls
        /\ m' = Begin(m) /\ calls' = calls + 1 /\ hist' = Append(hist, <<>>) /\ UNCHANGED m0
Reply == /\ Waiting(m)
         /\ \E r \in Answers : m' = Answer(m, r) /\ hist' = [hist EXCEPT ![Len(hist)] = Append(@, r)]
         /\ UNCHANGED <<m0, calls>>
Next == Call \/ Reply
Spec == Init /\ [][Next]_vars /\ WF_vars(Reply)
Emit == m.ph # "done" \/ calls < MaxCalls \/ PrintT("TEST " \o ToJson(<<[t |-> m0.t, g |-> m0.g, off |-> m0.off, inc |-> m0.inc, calls |-> hist]>>))
Last == hist[Len(hist)]
Safe ==
  m.ph = "done" =>
    /\ m.res \in {"ok", "error"}
    /\ (m.res = "ok") = (m.t = "good")
    /\ m.res = "error" => m.t = "absent"
    /\ Len(m.asked) = Len(Last)
    /\ Len(m.asked) <= 2 * MaxAttempts
    /\ calls = 1 /\ m0.t = "good" => m.asked = <<>> /\ m.g = m0.g
    /\ calls = 1 /\ m0.t = "absent" /\ m0.inc /\ m0.g = "good" => m.asked = <<>> /\ m.res = "ok"
    /\ ~m.inc => m.g = m0.g
    /\ (\E i \in 1..Len(m.asked) : m.asked[i] = "mirror") => m.off
    /\ \A i \in 1..Len(m.asked) : m.asked[i] = "mirror" => i > 1 /\ m.asked[i - 1] = "primary"
Ends == []<>(~Waiting(m))
Ok == Safe /\ Emit
=============================================================================
