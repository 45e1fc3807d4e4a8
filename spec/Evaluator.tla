------------------------------ MODULE Evaluator ------------------------------
(***************************************************************************)
(* The batch evaluator as a state machine.  A row value is a sequence of   *)
(* sequences of fixed-point numbers (<<<<v>>>> for scalar metrics).        *)
(*   vp, tp : values of the rows added since the last epoch of the mode    *)
(*            (tp: one sequence per metric)                                *)
(*   vl, tl : last epoch result as an option (<<>> or <<result>>)          *)
(*   held   : everything returned so far                                   *)
(***************************************************************************)
EXTENDS Metrics

NewEval(n) == [n |-> n, vp |-> <<>>, vl |-> <<>>, tp |-> [i \in 1..n |-> <<>>], tl |-> <<>>, held |-> <<>>]

(* entrywise mean of a non-empty sequence of row values *)
MeanRows(rows) ==
  TLCEval([a \in 1..Len(rows[1]) |-> [b \in 1..Len(rows[1][a]) |->
            Div(Sum([r \in 1..Len(rows) |-> rows[r][a][b]]), Len(rows) * ONE)]])

AddV(s, rows) == [s EXCEPT !.vp = @ \o rows]
AddT(s, rowsOf) == [s EXCEPT !.tp = [i \in 1..s.n |-> s.tp[i] \o rowsOf[i]]]
HasV(s) == Len(s.vp) > 0
HasT(s) == Len(s.tp[1]) > 0
CanEpochV(s) == HasV(s) \/ s.vl # <<>>
CanEpochT(s) == HasT(s) \/ s.tl # <<>>
ResV(s) == IF HasV(s) THEN MeanRows(s.vp) ELSE s.vl[1]
ResT(s) == IF HasT(s) THEN [i \in 1..s.n |-> MeanRows(s.tp[i])] ELSE s.tl[1]
Hold(s, r) == [s EXCEPT !.held = Append(@, r)]
EpochV(s) == LET r == ResV(s) IN Hold([s EXCEPT !.vl = <<r>>, !.vp = <<>>], <<r>>)
EpochT(s) == LET r == ResT(s) IN Hold([s EXCEPT !.tl = <<r>>, !.tp = [i \in 1..s.n |-> <<>>]], r)
=============================================================================
