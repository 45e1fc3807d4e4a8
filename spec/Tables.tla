------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* Text tables.  A file is a sequence of atoms: "\n" ends a line, every    *)
(* atom of seps separates two fields (the default is ",", " " and the      *)
(* tabulator), blanks (" ", "\t") at both ends of a line do not count, all *)
(* other atoms are text.  Fields may be empty; lines are not.              *)
(***************************************************************************)
EXTENDS Integers, Sequences
NL == "\n"
Blanks == {" ", "\t"}
RECURSIVE Lines(_), Strip(_), Fields(_, _), Glue(_)
(* an unfinished last line is a line too *)
Lines(a) ==
  IF a = <<>> THEN <<>>
  ELSE LET ends == {i \in 1..Len(a) : a[i] = NL} IN
       IF ends = {} THEN <<a>>
       ELSE LET k == CHOOSE i \in ends : \A j \in ends : i <= j IN <<SubSeq(a, 1, k - 1)>> \o Lines(SubSeq(a, k + 1, Len(a)))
Strip(a) ==
  IF a = <<>> THEN a
  ELSE IF a[1] \in Blanks THEN Strip(Tail(a))
  ELSE IF a[Len(a)] \in Blanks THEN Strip(SubSeq(a, 1, Len(a) - 1)) ELSE a
Glue(a) == IF a = <<>> THEN "" ELSE a[1] \o Glue(Tail(a))
Fields(a, seps) ==
  LET cuts == {i \in 1..Len(a) : a[i] \in seps} IN
  IF cuts = {} THEN <<Glue(a)>>
  ELSE LET k == CHOOSE i \in cuts : \A j \in cuts : i <= j IN <<Glue(SubSeq(a, 1, k - 1))>> \o Fields(SubSeq(a, k + 1, Len(a)), seps)
Rows(a, seps, header) ==
  LET ls == Lines(a) IN [i \in 1..(IF header >= Len(ls) THEN 0 ELSE Len(ls) - header) |-> Fields(Strip(ls[i + header]), seps)]
=============================================================================
