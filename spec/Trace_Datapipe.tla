--------------------------- MODULE Trace_Datapipe ---------------------------
(***************************************************************************)
(* Verdicts for recorded pipeline steps, chains and file loads.            *)
(***************************************************************************)
EXTENDS Datapipe, Tables, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
TOL == 64
C(name, ok) == IF ok THEN {} ELSE {name}
(* e.pow: the rows were multiplied by powers of two first; normalising and scaling to a range do not depend on it *)
Chain(e) ==        \* e.x input matrix (a vector is one row), e.ps steps, e.out / e.t result
  IF ~e.ok THEN {"refused-valid-input"}
  ELSE IF e.pow # 0 /\ e.ps[1].name \notin {"norm", "minmax"} THEN {"scaled-input-of-a-step-with-scale"}
  ELSE LET r == Compose(e.ps, [t |-> "list", m |-> e.x]) IN
       C("value", CloseMat(e.out, r.m, TOL)) \cup C("type", e.t = r.t) \cup C("shape", e.shape) \cup C("input-modified", e.pure)
(* e.text as written, e.header lines skipped, e.cast the declared cast as pairs <<field, value>> *)
Txt(e) ==
  IF ~e.ok THEN {"refused-valid-file"}
  ELSE LET seps == {e.seps[i] : i \in 1..Len(e.seps)}
           val(f) == LET ps == {i \in 1..Len(e.cast) : e.cast[i][1] = f} IN IF ps = {} THEN f ELSE e.cast[CHOOSE i \in ps : TRUE][2]
           want == Rows(e.text, seps, e.header) IN
       C("rows", e.out = [i \in 1..Len(want) |-> [j \in 1..Len(want[i]) |-> val(want[i][j])]]) \cup C("types", e.types) \cup C("file-modified", e.pure)
Obj(e) == IF ~e.ok THEN {"refused-valid-file"} ELSE C("content", e.out = e.want) \cup C("file-modified", e.pure)
Bad(e) == C("accepted-invalid", ~e.ok)
Step(e) ==
  CASE e.op = "chain" -> Chain(e)
    [] e.op = "txt" -> Txt(e)
    [] e.op = "obj" -> Obj(e)
    [] e.op = "bad" -> Bad(e)
Report(r) == r = {} \/ PrintT("FAIL " \o ToString(tr) \o " " \o ToString(l) \o " " \o ToString(r))
TraceInit == tr \in 1..Len(Traces) /\ l = 1
TraceNext == /\ l <= Len(Traces[tr].ev) /\ Report(Step(Traces[tr].ev[l])) /\ l' = l + 1 /\ tr' = tr
=============================================================================
