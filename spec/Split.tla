------------------------------- MODULE Split -------------------------------
(***************************************************************************)
(* Splits of labelled items and of user-item interactions, and the samples *)
(* a recommender dataset draws from the interactions.                      *)
(* A split of n items is [train, val, test : SUBSET (1..n)].               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min(a, b) == IF a < b THEN a ELSE b
Class(lab, c) == {i \in 1..Len(lab) : lab[i] = c}
ClassesOf(lab) == {lab[i] : i \in 1..Len(lab)}

(* request: [kind |-> "num"|"ratio", t, v, s]; counts are integers, shares are <<n, d>>; s = None means "the rest" *)
None == <<-1, 1>>
Take(req, part, n) ==
  LET x == req[part] IN IF req.kind = "num" THEN x[1] ELSE (n * x[1]) \div x[2]
(* training, validation and test items taken from a class of n, in that order *)
Sizes(req, n) ==
  LET a == Min(Take(req, "t", n), n)
      b == IF req.v = None THEN 0 ELSE Min(Take(req, "v", n), n - a)
      c == IF req.s = None THEN n - a - b ELSE Min(Take(req, "s", n), n - a - b) IN
  <<a, b, c>>
(* shares must leave something for an open test part and must not exceed the whole *)
LeqOne(a, b, c, strict) ==
  LET l == a[1] * b[2] * c[2] + b[1] * a[2] * c[2] + c[1] * a[2] * b[2]  r == a[2] * b[2] * c[2] IN IF strict THEN l < r ELSE l <= r
Feasible(req) ==
  req.kind = "num" \/
  LET v == IF req.v = None THEN <<0, 1>> ELSE req.v IN
  IF req.s = None THEN LeqOne(req.t, v, <<0, 1>>, TRUE) ELSE LeqOne(req.t, v, req.s, FALSE)
HasVal(req) == req.v # None /\ req.v[1] # 0

IsSplit(lab, req, p) ==
  /\ p.train \cap p.val = {} /\ p.train \cap p.test = {} /\ p.val \cap p.test = {}
  /\ p.train \cup p.val \cup p.test \subseteq 1..Len(lab)
  /\ \A c \in ClassesOf(lab) :
       LET k == Class(lab, c)  z == Sizes(req, Cardinality(k)) IN
       <<Cardinality(p.train \cap k), Cardinality(p.val \cap k), Cardinality(p.test \cap k)>> = z

-----------------------------------------------------------------------------
(* interactions: adj is a sequence (users 1..) of sets of items *)
UserTrain(req, n) == IF req.kind = "num" THEN Min(req.t[1], n) ELSE (n * req.t[1]) \div req.t[2]
IsUISplit(adj, req, tr, te) ==
  \A u \in 1..Len(adj) : /\ tr[u] \cap te[u] = {} /\ tr[u] \cup te[u] = adj[u]
                          /\ Cardinality(tr[u]) = UserTrain(req, Cardinality(adj[u]))
(* a training sample belongs to an interaction and its negative is unseen *)
IsSample(tr, nitems, u, p, n) == u \in 1..Len(tr) /\ p \in tr[u] /\ n \in 0..(nitems - 1) /\ n \notin tr[u]
(* evaluation row of a user: excluded items, relevant items *)
EvalRow(tr, te, u) == <<tr[u], te[u]>>
=============================================================================
