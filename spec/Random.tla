------------------------------- MODULE Random -------------------------------
(***************************************************************************)
(* Random structures as nondeterministic choices.  A request is            *)
(*   [gen, n, u, k, m, p, w]                                               *)
(* gen: "graph" | "digraph" | "bigraph" | "uniform" | "hyper",             *)
(* n vertices (u, n: the two sides of a bipartite graph), k the size of a  *)
(* uniform hyperedge, m the number of edges or -1, p = <<a, b>> the edge   *)
(* probability a/b (when m = -1), w the weights of the sizes 2..n.         *)
(* Edges: <<i, j>> with i < j, <<from, to>>, <<u, v>>; hyperedges are sets.*)
(*                                                                         *)
(* The state of the generators is the seed last set and the requests made  *)
(* since: seen maps such histories to the structures they produced, so a   *)
(* result that depends on anything else is a second value for a history.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt

(* binomial coefficients by Pascal's triangle, small arguments *)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 THEN 1 ELSE (Binom(n - 1, k - 1) * n) \div k

Verts(n) == 0..(n - 1)
(* not FiniteSetsExt's kSubset: TLC does not put its members in order, and then misses some of them in membership tests *)
OfSize(k, S) == {T \in SUBSET S : Cardinality(T) = k}
Possible(r) ==
  CASE r.gen = "graph" -> {e \in Verts(r.n) \X Verts(r.n) : e[1] < e[2]}
    [] r.gen = "digraph" -> {e \in Verts(r.n) \X Verts(r.n) : e[1] # e[2]}
    [] r.gen = "bigraph" -> Verts(r.u) \X Verts(r.n)
    [] r.gen = "uniform" -> OfSize(r.k, Verts(r.n))
    [] r.gen = "hyper" -> UNION {IF r.w[i] > 0 THEN OfSize(i + 1, Verts(r.n)) ELSE {} : i \in 1..(r.n - 1)}
NumPossible(r) ==
  CASE r.gen = "graph" -> (r.n * (r.n - 1)) \div 2
    [] r.gen = "digraph" -> r.n * (r.n - 1)
    [] r.gen = "bigraph" -> r.u * r.n
    [] r.gen = "uniform" -> Binom(r.n, r.k)
    [] r.gen = "hyper" -> FoldFunctionOnSet(LAMBDA a, b : a + b, 0, [i \in 1..(r.n - 1) |-> IF r.w[i] > 0 THEN Binom(r.n, i + 1) ELSE 0], 1..(r.n - 1))
(* membership without building the whole set *)
IsEdge(r, e) ==
  CASE r.gen = "graph" -> e[1] \in Verts(r.n) /\ e[2] \in Verts(r.n) /\ e[1] < e[2]
    [] r.gen = "digraph" -> e[1] \in Verts(r.n) /\ e[2] \in Verts(r.n) /\ e[1] # e[2]
    [] r.gen = "bigraph" -> e[1] \in Verts(r.u) /\ e[2] \in Verts(r.n)
    [] r.gen = "uniform" -> e \subseteq Verts(r.n) /\ Cardinality(e) = r.k
    [] r.gen = "hyper" -> e \subseteq Verts(r.n) /\ Cardinality(e) \in 2..r.n /\ r.w[Cardinality(e) - 1] > 0
Hyper(r) == r.gen \in {"uniform", "hyper"}

Feasible(r) ==
  /\ r.n >= 2
  /\ r.gen = "bigraph" => r.u >= 2
  /\ r.gen = "uniform" => r.k >= 2
  /\ IF r.m = -1 THEN r.p[1] >= 0 /\ r.p[1] <= r.p[2]
     ELSE r.m <= NumPossible(r) /\ r.m >= 0 /\ (Hyper(r) => r.m >= 1)
  /\ r.gen = "hyper" => Len(r.w) = r.n - 1
(* a structure the request allows *)
Allowed(r, E) ==
  /\ \A e \in E : IsEdge(r, e)
  /\ r.m >= 0 => Cardinality(E) = r.m
  /\ r.m = -1 => (r.p[1] = 0 => E = {}) /\ (r.p[1] = r.p[2] => Cardinality(E) = NumPossible(r))

(* how often an edge is expected in a structure: a pair <<a, b>>, a/b, exact *)
Rate(r, e) ==
  IF r.m = -1 THEN r.p
  ELSE IF r.gen # "hyper" THEN <<r.m, NumPossible(r)>>
  ELSE (* one hyperedge: first its size, then its members *)
       LET tot == FoldFunctionOnSet(LAMBDA a, b : a + b, 0, [i \in 1..(r.n - 1) |-> r.w[i]], 1..(r.n - 1)) IN
       <<r.w[Cardinality(e) - 1], tot * Binom(r.n, Cardinality(e))>>
(* c of n draws within 6.5 standard deviations of a rate a/b *)
Near(c, n, a, b) == LET d == c * b - n * a IN d < 40000 /\ d > -40000 /\ (d * d <= 42 * n * a * (b - a) \/ (a = b /\ c = n))

(* the seeded history *)
Start == [seed |-> -1, since |-> <<>>]
SetSeed(h, x) == [seed |-> x, since |-> <<>>]
Draw(h, q) == [h EXCEPT !.since = Append(@, q)]
=============================================================================
