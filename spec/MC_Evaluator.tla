---------------------------- MODULE MC_Evaluator ----------------------------
(***************************************************************************)
(* Every history of batch additions, epoch ends, immediate evaluations and *)
(* rejected batches up to MaxLen calls, with two metrics.                  *)
(***************************************************************************)
EXTENDS Evaluator, Json, IOUtils
VARIABLES s, hist
MaxLen == IF "MC_LEN" \in DOMAIN IOEnv THEN atoi(IOEnv.MC_LEN) ELSE 5
V(x) == <<<<x * ONE>>>>
Batch == [a |-> <<1>>, b |-> <<3, 6>>]
Rows(b, m) == [i \in 1..Len(Batch[b]) |-> V(m * Batch[b][i])]
Calls == {[op |-> o, b |-> b] : o \in {"addv", "addt"}, b \in {"a", "b"}} \cup {[op |-> o, b |-> ""] : o \in {"epochv", "epocht", "imm", "bad"}}
Accepts(st, c) == CASE c.op = "epochv" -> CanEpochV(st) [] c.op = "epocht" -> CanEpochT(st) [] c.op = "bad" -> FALSE [] OTHER -> TRUE
Effect(st, c) ==
  CASE c.op = "addv" -> AddV(st, Rows(c.b, 1))
    [] c.op = "addt" -> AddT(st, <<Rows(c.b, 1), Rows(c.b, 2)>>)
    [] c.op = "epochv" -> EpochV(st)
    [] c.op = "epocht" -> EpochT(st)
    [] OTHER -> st
Init == s = NewEval(2) /\ hist = <<>>
Do(c) == /\ s' = (IF Accepts(s, c) THEN Effect(s, c) ELSE s)
         /\ hist' = Append(hist, c)
         /\ PrintT("TEST " \o ToJson(hist'))
Next == Len(hist) < MaxLen /\ \E c \in Calls : Do(c)
vars == <<s, hist>>
View == <<[s EXCEPT !.held = <<>>], Len(hist)>>

(* what the history alone says: rows of the batches since the previous epoch end of the mode *)
RECURSIVE Since(_, _, _)
Since(h, add, end) ==
  IF Len(h) = 0 THEN <<>>
  ELSE LET c == h[Len(h)]  r == SubSeq(h, 1, Len(h) - 1) IN
       IF c.op = end THEN <<>> ELSE Since(r, add, end) \o (IF c.op = add THEN Batch[c.b] ELSE <<>>)
RECURSIVE LastRes(_, _, _)
LastRes(h, add, end) ==      \* <<>> or <<sum, count>> of the last epoch that had batches
  IF Len(h) = 0 THEN <<>>
  ELSE LET r == SubSeq(h, 1, Len(h) - 1) IN
       IF h[Len(h)].op = end /\ Since(r, add, end) # <<>> THEN <<Sum(Since(r, add, end)), Len(Since(r, add, end))>>
       ELSE LastRes(r, add, end)
Avg(p) == Div(p[1] * ONE, p[2] * ONE)
HistoryOk ==
  /\ s.vp = [i \in 1..Len(Since(hist, "addv", "epochv")) |-> V(Since(hist, "addv", "epochv")[i])]
  /\ s.tp[1] = [i \in 1..Len(Since(hist, "addt", "epocht")) |-> V(Since(hist, "addt", "epocht")[i])]
  /\ LET q == LastRes(hist, "addv", "epochv") IN s.vl = (IF q = <<>> THEN <<>> ELSE <<<<<<Avg(q)>>>>>>)
  /\ LET q == LastRes(hist, "addt", "epocht") IN
     (s.tl = <<>>) = (q = <<>>) /\ (q # <<>> => s.tl[1][1][1][1] = Avg(q) /\ Abs(s.tl[1][2][1][1] - 2 * Avg(q)) <= 2)
(* results already returned keep their values *)
HeldProp == [][SubSeq(s'.held, 1, Len(s.held)) = s.held]_vars
(* the modes do not disturb each other *)
ModeProp == [][LET o == hist'[Len(hist')].op IN
               /\ o \in {"addv", "epochv", "imm", "bad"} => s'.tp = s.tp /\ s'.tl = s.tl
               /\ o \in {"addt", "epocht", "imm", "bad"} => s'.vp = s.vp /\ s'.vl = s.vl]_vars
=============================================================================
