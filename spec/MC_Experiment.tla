---------------------------- MODULE MC_Experiment ----------------------------
(***************************************************************************)
(* All histories of one task over up to RUNS runs: every score sequence,   *)
(* pruning and failure at every point, both directions.  h is the script   *)
(* for the real task.                                                      *)
(***************************************************************************)
EXTENDS Experiment, Json, IOUtils, FiniteSetsExt
VARIABLES s, h, runs
RUNS == 2
T == IF "MC_T" \in DOMAIN IOEnv THEN atoi(IOEnv.MC_T) ELSE 2
E == IF "MC_E" \in DOMAIN IOEnv THEN atoi(IOEnv.MC_E) ELSE 2
Scores == {0, 1, 2}
Init == s = Idle /\ h = <<>> /\ runs = 0
(* the second run is short: it only has to show what it inherits *)
Next ==
  \/ /\ s.ph \in {"idle", "done"} /\ runs < RUNS
     /\ \E d \in {"maximize", "minimize"} : \E n \in 1..(IF runs = 0 THEN T ELSE 1) : \E m \in {IF runs = 0 THEN E ELSE 1} :
          /\ s' = Run(s, d, m, n) /\ runs' = runs + 1 /\ h' = Append(h, <<"run", d, m, n>>)
  \/ CanStart(s) /\ s' = Start(s) /\ h' = Append(h, <<"trial">>) /\ UNCHANGED runs
  \/ CanTrain(s) /\ s' = Train(s) /\ UNCHANGED <<h, runs>>
  \/ CanValidate(s) /\ \E v \in Scores : s' = Validate(s, v) /\ h' = Append(h, <<"score", v>>) /\ UNCHANGED runs
  \/ s.ph = "trial" /\ s.trained /\ s' = Prune(s) /\ h' = Append(h, <<"prune">>) /\ UNCHANGED runs
  \/ s.ph = "trial" /\ s.trained /\ s' = Fail(s) /\ h' = Append(h, <<"fail">>) /\ UNCHANGED runs
  \/ CanComplete(s) /\ s' = Complete(s) /\ UNCHANGED <<h, runs>>
  \/ CanFinish(s) /\ \E z \in Finishes(s) : s' = z /\ UNCHANGED <<h, runs>>
Emit == (s.ph \in {"idle", "done"} /\ h # <<>>) => PrintT("TEST " \o ToJson(h))
Ok == /\ s.ph = "done" => /\ s.kept[3] = Best(s.dir, [i \in 1..Cardinality(s.full) |-> TrialScore(s.dir, CHOOSE r \in s.full : Cardinality({u \in s.full : u[1] < r[1]}) = i - 1)])
                          /\ s.files = {s.kept[1]}
                          /\ \E r \in s.full : r[1] = s.kept[1] /\ r[2][s.kept[2]] = s.kept[3]
                          /\ \A r \in s.full : \A i \in 1..Len(r[2]) : ~Better(s.dir, r[2][i], s.kept[3])
      /\ s.ph = "trial" => s.e <= s.max /\ Len(s.scores) = s.e
      /\ Emit
=============================================================================
