------------------------------ MODULE Download ------------------------------
(***************************************************************************)
(* Obtaining a remote file.  Contents are "absent", "good" (the expected   *)
(* checksum) or "bad".  A server answers "good", "bad" (a complete or      *)
(* silently truncated response), "http" (an error status), "net" (no       *)
(* response) or "broken" (the body breaks off with an error).              *)
(*  m.t target, m.g copy in the old cache, m.off: the address belongs to   *)
(*  the official store (there is a mirror), m.inc: the target belongs to   *)
(*  the cache (there may be an old copy), m.asked: sources asked so far.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

MaxAttempts == 3
Answers == {"good", "bad", "http", "net", "broken"}
File(t, g, off, inc) == [t |-> t, g |-> g, off |-> off, inc |-> inc, ph |-> "idle", n |-> 0, asked |-> <<>>, res |-> ""]
Source(m, i) == IF i = 1 THEN (IF m.off THEN "primary" ELSE "custom") ELSE "mirror"

Done(m, res) == [m EXCEPT !.ph = "done", !.res = res]
Check(m) == IF m.t = "good" THEN Done(m, "ok") ELSE Done([m EXCEPT !.t = "absent"], "error")
Attempt(m) ==
  LET a == IF m.t = "absent" /\ m.inc /\ m.g # "absent" THEN [m EXCEPT !.t = m.g, !.g = "absent"] ELSE m IN
  IF a.t # "absent" THEN Check(a) ELSE [a EXCEPT !.ph = "primary", !.n = @ + 1]
Begin(m) == Attempt([m EXCEPT !.n = 0, !.asked = <<>>, !.res = ""])
Waiting(m) == m.ph \in {"primary", "mirror"}
Fail(m, r) == IF r = "http" /\ m.n < MaxAttempts THEN Attempt(m) ELSE Done(m, "error")
Answer(m, r) ==
  LET a == [m EXCEPT !.asked = Append(@, Source(m, IF m.ph = "primary" THEN 1 ELSE 2))] IN
  IF r \in {"good", "bad"} THEN Check([a EXCEPT !.t = r])
  ELSE IF m.ph = "primary" /\ m.off THEN [a EXCEPT !.ph = "mirror"]
  ELSE Fail(a, r)
(* the whole call under the given answers; stops early when answers run out *)
RECURSIVE Feed(_, _)
Feed(m, rs) == IF ~Waiting(m) \/ rs = <<>> THEN m ELSE Feed(Answer(m, Head(rs)), Tail(rs))
Run(m, rs) == Feed(Begin(m), rs)
=============================================================================
