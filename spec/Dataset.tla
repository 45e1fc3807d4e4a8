------------------------------ MODULE Dataset ------------------------------
(***************************************************************************)
(* A dataset object.  Items are fixed values or are loaded from files and  *)
(* passed through preprocessing pipes.  The environment decides which      *)
(* files exist, what the servers answer and which loader or pipe fails.    *)
(*  item: [kind |-> "fixed"|"load", files |-> Seq(file), pipes |-> n]      *)
(*  d.raw[i]  : number of the loader call whose value is kept (0: none)    *)
(*  d.done[i] : the preprocessed value is kept                             *)
(*  d.loads   : loader calls so far                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

NewData(items, nf) ==
  [items |-> items, raw |-> [i \in 1..Len(items) |-> 0], done |-> [i \in 1..Len(items) |-> FALSE], loads |-> 0,
   disk |-> [f \in 1..nf |-> "absent"], net |-> [f \in 1..nf |-> "up"],
   lbad |-> [i \in 1..Len(items) |-> FALSE], pbad |-> [i \in 1..Len(items) |-> 0]]

(* effects of a call: files asked for, loader calls <<item, files>>, pipes applied <<item, pipe>>, outcome and value *)
Eff(asked, loads, pipes, ok, val) == [asked |-> asked, loads |-> loads, pipes |-> pipes, ok |-> ok, val |-> val]
NoVal == [item |-> 0, load |-> 0, pipes |-> <<>>]
Val(i, n, p) == [item |-> i, load |-> n, pipes |-> p]

(* fetch files fs in order: <<disk, asked, ok>> *)
RECURSIVE FetchAll(_, _, _, _)
FetchAll(disk, net, fs, asked) ==
  IF fs = <<>> THEN <<disk, asked, TRUE>>
  ELSE LET f == Head(fs) IN
    CASE disk[f] = "good" -> FetchAll(disk, net, Tail(fs), asked)
      [] disk[f] = "bad" -> <<[disk EXCEPT ![f] = "absent"], asked, FALSE>>
      [] disk[f] = "absent" /\ net[f] = "up" -> FetchAll([disk EXCEPT ![f] = "good"], net, Tail(fs), Append(asked, f))
      [] OTHER -> <<disk, Append(asked, f), FALSE>>

(* <<state, effect>> of asking for the unprocessed item *)
Raw(d, i) ==
  IF d.items[i].kind = "fixed" THEN <<d, Eff(<<>>, <<>>, <<>>, TRUE, Val(i, 0, <<>>))>>
  ELSE IF d.raw[i] # 0 THEN <<d, Eff(<<>>, <<>>, <<>>, TRUE, Val(i, d.raw[i], <<>>))>>
  ELSE LET r == FetchAll(d.disk, d.net, d.items[i].files, <<>>)  d1 == [d EXCEPT !.disk = r[1]] IN
       IF ~r[3] THEN <<d1, Eff(r[2], <<>>, <<>>, FALSE, NoVal)>>
       ELSE LET d2 == [d1 EXCEPT !.loads = @ + 1]  call == <<<<i, d.items[i].files>>>> IN
            IF d.lbad[i] THEN <<d2, Eff(r[2], call, <<>>, FALSE, NoVal)>>
            ELSE <<[d2 EXCEPT !.raw[i] = d2.loads], Eff(r[2], call, <<>>, TRUE, Val(i, d2.loads, <<>>))>>
Get(d, i) ==
  LET it == d.items[i] IN
  IF it.kind = "fixed" THEN Raw(d, i)
  ELSE IF d.done[i] THEN <<d, Eff(<<>>, <<>>, <<>>, TRUE, Val(i, d.raw[i], [k \in 1..it.pipes |-> k]))>>
  ELSE LET r == Raw(d, i)  e == r[2] IN
       IF ~e.ok THEN r
       ELSE LET last == IF d.pbad[i] \in 1..it.pipes THEN d.pbad[i] ELSE it.pipes
                ps == [k \in 1..last |-> <<i, k>>] IN
            IF d.pbad[i] \in 1..it.pipes THEN <<r[1], [e EXCEPT !.pipes = ps, !.ok = FALSE, !.val = NoVal]>>
            ELSE <<[r[1] EXCEPT !.done[i] = TRUE], [e EXCEPT !.pipes = ps, !.val = Val(i, r[1].raw[i], [k \in 1..it.pipes |-> k])]>>
=============================================================================
