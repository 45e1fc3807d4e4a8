----------------------------- MODULE MC_Dataset -----------------------------
(***************************************************************************)
(* All access histories of a dataset with a fixed item, a one-file item    *)
(* with one pipe and a two-file item (sharing a file) with two pipes,      *)
(* interleaved with environment changes, up to MC_LEN steps.               *)
(***************************************************************************)
EXTENDS Dataset, Json, IOUtils, FiniteSets
VARIABLES d, hist, last
MaxLen == IF "MC_LEN" \in DOMAIN IOEnv THEN atoi(IOEnv.MC_LEN) ELSE 4
Items == <<[kind |-> "fixed", files |-> <<>>, pipes |-> 0], [kind |-> "load", files |-> <<1>>, pipes |-> 1],
           [kind |-> "load", files |-> <<2, 1>>, pipes |-> 2]>>
NF == 2
vars == <<d, hist, last>>
None == Eff(<<>>, <<>>, <<>>, TRUE, NoVal)
Init == d = NewData(Items, NF) /\ hist = <<>> /\ last = None
Ops == {[op |-> o, i |-> i, v |-> ""] : o \in {"get", "raw"}, i \in 1..Len(Items)}
       \cup {[op |-> "net", i |-> f, v |-> c] : f \in 1..NF, c \in {"up", "down", "corrupt"}}
       \cup {[op |-> "disk", i |-> f, v |-> c] : f \in 1..NF, c \in {"absent", "good", "bad"}}
       \cup {[op |-> o, i |-> i, v |-> ""] : o \in {"loader", "pipe"}, i \in 2..Len(Items)}
Env(c) == CASE c.op = "net" -> [d EXCEPT !.net[c.i] = c.v]
            [] c.op = "disk" -> [d EXCEPT !.disk[c.i] = c.v]
            [] c.op = "loader" -> [d EXCEPT !.lbad[c.i] = ~@]
            [] c.op = "pipe" -> [d EXCEPT !.pbad[c.i] = IF @ = 0 THEN d.items[c.i].pipes ELSE 0]
Do(c) == /\ (IF c.op \in {"get", "raw"}
             THEN LET r == IF c.op = "get" THEN Get(d, c.i) ELSE Raw(d, c.i) IN d' = r[1] /\ last' = r[2]
             ELSE d' = Env(c) /\ d' # d /\ last' = None)
         /\ hist' = Append(hist, c)
         /\ (c.op \notin {"get", "raw"} \/ PrintT("TEST " \o ToJson(hist')))
Next == Len(hist) < MaxLen /\ \E c \in Ops : Do(c)
View == <<d, Len(hist)>>
(* a kept value stays, is produced by one loader call only, and nothing is asked for once it is kept *)
Once == [][\A i \in 1..Len(Items) :
             /\ d.raw[i] # 0 => d'.raw[i] = d.raw[i]
             /\ d.done[i] => d'.done[i] /\ (hist'[Len(hist')] = [op |-> "get", i |-> i, v |-> ""]
                                              => last'.asked = <<>> /\ last'.loads = <<>> /\ last'.pipes = <<>> /\ last'.ok)]_vars
(* nothing is loaded but by asking for a loaded item; failures keep nothing *)
Lazy == [][/\ (hist'[Len(hist')].op \notin {"get", "raw"} => d'.raw = d.raw /\ d'.done = d.done /\ d'.loads = d.loads)
           /\ (~last'.ok => d'.done = d.done)
           /\ (last'.ok => \A f \in {1, 2} : d'.disk[f] = d.disk[f] \/ d'.disk[f] = "good" \/ hist'[Len(hist')].op = "disk")]_vars
Inv == \A i \in 1..Len(Items) : d.done[i] => d.raw[i] # 0
=============================================================================
