----------------------------- MODULE Experiment -----------------------------
(***************************************************************************)
(* An automated experiment: trials of a number of epochs each; every epoch *)
(* trains, then validates.  The state is                                   *)
(*   ph      "idle" | "trial" | "done"                                     *)
(*   dir     "maximize" | "minimize",  max  epochs per trial               *)
(*   t, e    current trial (-1: none yet) and epochs finished in it        *)
(*   trained whether the current epoch has been trained                    *)
(*   scores  scores of the finished epochs of the current trial            *)
(*   full    completed trials: <<trial, scores>>                           *)
(*   left    trials still to run                                           *)
(*   kept    <<>> or <<trial, epoch, score>>: what the task holds          *)
(*   files   trial numbers with files in the work directory                *)
(* Scores are integers; trials are numbered from 0, epochs from 1.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Better(dir, a, b) == IF dir = "maximize" THEN a > b ELSE a < b
Best(dir, q) == CHOOSE x \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : ~Better(dir, q[i], x)
BestEpochs(dir, q) == {i \in 1..Len(q) : q[i] = Best(dir, q)}
TrialScore(dir, r) == Best(dir, r[2])
(* trials with the best score, and the pairs <<trial, epoch>> whose parameters may be kept *)
BestTrials(dir, full) == {r \in full : \A u \in full : ~Better(dir, TrialScore(dir, u), TrialScore(dir, r))}
MayKeep(dir, full) == {<<r[1], i, r[2][i]>> : r \in BestTrials(dir, full), i \in 1..64}

Idle == [ph |-> "idle", dir |-> "maximize", max |-> 0, t |-> -1, e |-> 0, trained |-> FALSE, scores |-> <<>>, full |-> {}, left |-> 0, kept |-> <<>>, files |-> {}]
Run(s, dir, max, n) == [s EXCEPT !.ph = "between", !.dir = dir, !.max = max, !.t = -1, !.full = {}, !.left = n]
CanStart(s) == s.ph = "between" /\ s.left > 0
Start(s) == [s EXCEPT !.ph = "trial", !.t = @ + 1, !.e = 0, !.scores = <<>>, !.trained = FALSE, !.left = @ - 1]
CanTrain(s) == s.ph = "trial" /\ ~s.trained /\ s.e < s.max
Train(s) == [s EXCEPT !.trained = TRUE]
CanValidate(s) == s.ph = "trial" /\ s.trained
Validate(s, v) == [s EXCEPT !.e = @ + 1, !.scores = Append(@, v), !.trained = FALSE]
CanComplete(s) == s.ph = "trial" /\ s.e = s.max /\ ~s.trained
Complete(s) == [s EXCEPT !.ph = "between", !.full = @ \cup {<<s.t, s.scores>>}, !.files = @ \cup {s.t}]
(* a pruned trial is over and keeps nothing *)
Prune(s) == [s EXCEPT !.ph = "between", !.trained = FALSE]
(* an error ends the run; what the task held before stays *)
Fail(s) == [s EXCEPT !.ph = "idle", !.trained = FALSE]
CanFinish(s) == s.ph = "between" /\ s.left = 0
Finishes(s) == IF s.full = {} THEN {[s EXCEPT !.ph = "idle"]}   \* no completed trial: the run is an error
               ELSE {[s EXCEPT !.ph = "done", !.kept = <<r[1], i, r[2][i]>>, !.files = {r[1]}] :
                       <<r, i>> \in {p \in BestTrials(s.dir, s.full) \X (1..s.max) : p[2] \in BestEpochs(s.dir, p[1][2])}}

(* The work folder.  A tree is a set of <<path, lines>>; a path is a        *)
(* sequence of names from the folder that should hold the work folder, the  *)
(* first being the work folder's own.  Opening a study touches only the     *)
(* study's folder: emptied first when overwriting, its log extended         *)
(* otherwise; without a folder to hold the work folder it is refused.       *)
Own(root, study, f) == Len(f[1]) > 2 /\ f[1][1] = root /\ f[1][2] = study
Log(root, study) == <<root, study, "log.txt">>
Extends(old, new) == Len(new) >= Len(old) /\ SubSeq(new, 1, Len(old)) = old
OpenOk(where, over, root, study, before, after) ==
  LET mine == {f \in before : Own(root, study, f)}
      now == {f \in after : Own(root, study, f)} IN
  IF where = "nothing" THEN after = before
  ELSE /\ before \ mine = after \ now
       /\ IF over THEN {f[1] : f \in now} \subseteq {Log(root, study)} /\ \A f \in now, o \in mine : o[1] = f[1] => ~(o[2] # <<>> /\ Extends(o[2], f[2]))
          ELSE /\ {f[1] : f \in mine} \subseteq {f[1] : f \in now}
               /\ {f[1] : f \in now} \subseteq {f[1] : f \in mine} \cup {Log(root, study)}
               /\ \A o \in mine : \E f \in now : f[1] = o[1] /\ IF o[1] = Log(root, study) THEN Extends(o[2], f[2]) ELSE f = o
(* a run writes only the study's log and cache *)
RunOk(root, study, before, after) ==
  LET rest(T) == {f \in T : ~(f[1] = Log(root, study) \/ (Own(root, study, f) /\ f[1][3] = "cache"))} IN
  /\ rest(before) = rest(after)
  /\ \A o \in before : o[1] = Log(root, study) => \E f \in after : f[1] = o[1] /\ Extends(o[2], f[2])
=============================================================================
