------------------------------ MODULE MC_Random ------------------------------
(***************************************************************************)
(* Every request with up to N vertices, feasible or not, and every         *)
(* structure it allows; TLC checks the counting formulas against the       *)
(* enumerated edges and that every possible edge occurs in some structure. *)
(***************************************************************************)
EXTENDS Random, Json, IOUtils
VARIABLE x
N == IF "MC_N" \in DOMAIN IOEnv THEN atoi(IOEnv.MC_N) ELSE 4
Probs == {<<0, 1>>, <<1, 4>>, <<1, 2>>, <<1, 1>>, <<-1, 2>>, <<3, 2>>}
R(gen, n, u, k, m, p, w) == [gen |-> gen, n |-> n, u |-> u, k |-> k, m |-> m, p |-> p, w |-> w]
Weights(n) == {[i \in 1..(n - 1) |-> f[i]] : f \in [1..(n - 1) -> {0, 1, 3}]} \ {[i \in 1..(n - 1) |-> 0]}
Gnp == {R(g, n, u, k, -1, p, <<>>) : g \in {"graph", "digraph", "bigraph", "uniform"}, n \in 1..N, u \in 1..N, k \in 1..N, p \in Probs}
Gnm == {R(g, n, u, k, m, <<0, 1>>, <<>>) : g \in {"graph", "digraph", "bigraph", "uniform"}, n \in 1..N, u \in 1..N, k \in 1..(N + 1), m \in 0..(N * (N - 1) + 1)}
Hg == UNION {{R("hyper", n, 1, 1, m, <<0, 1>>, w) : m \in 0..((2 ^ n) - n), w \in Weights(n)} : n \in 2..N}
(* fields a generator does not have are fixed *)
Proper(r) == /\ r.gen # "bigraph" => r.u = 1
             /\ r.gen # "uniform" => r.k = 1
             /\ r.m <= NumPossible(r) + 1
Init == x = [t |-> "start"]
Next == \/ x.t = "start" /\ \E r \in Gnp \cup Gnm \cup Hg : Proper(r) /\ x' = [t |-> "req", r |-> r]
        \/ /\ x.t = "req" /\ Feasible(x.r) /\ NumPossible(x.r) <= 6
           /\ \E E \in SUBSET Possible(x.r) : Allowed(x.r, E) /\ x' = [t |-> "made", r |-> x.r, E |-> E]
Ok == /\ x.t = "req" =>
           /\ x.r.n >= 2 => NumPossible(x.r) = Cardinality(Possible(x.r)) /\ \A e \in Possible(x.r) : IsEdge(x.r, e)
           /\ Feasible(x.r) /\ NumPossible(x.r) <= 6 =>
                \A e \in Possible(x.r) : (x.r.m # 0 /\ x.r.p[1] + x.r.m >= 0 /\ ~(x.r.m = -1 /\ x.r.p[1] = 0))
                  => \E E \in SUBSET Possible(x.r) : e \in E /\ Allowed(x.r, E)
           /\ PrintT("TEST " \o ToJson(<<x.r>>))
      /\ x.t = "made" => Cardinality(x.E) <= NumPossible(x.r)
=============================================================================
