------------------------------ MODULE MC_Store ------------------------------
(***************************************************************************)
(* Bounded instances of Store.  Calls(s) is the alphabet enabled in a      *)
(* state; hist is a witness of how the state was reached (hidden by VIEW). *)
(* Every transition is printed as one replayable call sequence.            *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils, SequencesExt
CONSTANTS Calls(_), Starts, MaxLen
VARIABLES s, hist

MaxLenEnv == IF "MC_LEN" \in DOMAIN IOEnv THEN atoi(IOEnv.MC_LEN) ELSE 3
Mk(op, o) == [op |-> op, o |-> o]
New(kind, nu, nv, es, extra) ==
  [op |-> "new", r |-> 1, kind |-> kind, nu |-> nu, nv |-> nv, es |-> es, nw |-> Len(es), hasw |-> TRUE, mop |-> "mean",
   extra |-> extra, vw |-> IF kind = "H" THEN UnitWeights(nv) ELSE <<>>, hasvw |-> FALSE, spell |-> "tuples"]
Add(o, es, mop, grp) == [op |-> "add", o |-> o, es |-> es, nw |-> Len(es), hasw |-> TRUE, mop |-> mop, grp |-> grp, spell |-> "tuples"]
Rem(o, ps, og, grp) == [op |-> "remove", o |-> o, ps |-> ps, og |-> og, grp |-> grp, spell |-> "tuples"]
OpW == {<<"mean", 3 * ONE>>, <<"sum", 2 * ONE>>, <<"max", (5 * ONE) \div 2>>}

(* undirected graph on two or three vertices *)
CallsG(st) ==
  {Add(1, <<<<p[1], p[2], q[2]>>>>, q[1], "") : p \in {<<0, 1>>, <<1, 0>>, <<1, 1>>}, q \in OpW}
  \cup {Add(1, <<<<0, 1, ONE>>, <<1, 0, 3 * ONE>>, <<1, 2, ONE>>, <<0, 1, 2 * ONE>>>>, m, "") : m \in MergeOps}
  \cup {Rem(1, ps, FALSE, "") : ps \in {<<<<1, 0>>>>, <<<<1, 1>>>>, <<>>, <<<<0, 1>>, <<2, 1>>>>}}
  \cup {Add(1, <<<<0, 3, ONE>>>>, "mean", ""), Add(1, <<<<0, 1, ONE>>>>, "median", "")}
  \cup {Mk(x, 1) : x \in {"clear", "addextra", "rmextra", "rmloop"}}
StartsG == {New("G", 0, 3, <<>>, FALSE), New("G", 0, 3, <<<<0, 1, ONE>>, <<2, 2, 2 * ONE>>>>, TRUE)}

CallsD(st) ==
  {Add(1, <<<<p[1], p[2], q[2]>>>>, q[1], "") : p \in {<<0, 1>>, <<1, 0>>, <<1, 1>>}, q \in OpW}
  \cup {Add(1, <<<<0, 1, ONE>>, <<1, 0, 3 * ONE>>, <<1, 2, ONE>>, <<0, 1, 2 * ONE>>>>, m, "") : m \in MergeOps}
  \cup {Rem(1, ps, FALSE, "") : ps \in {<<<<1, 0>>>>, <<<<1, 1>>>>, <<>>, <<<<0, 1>>, <<2, 1>>>>}}
  \cup {Add(1, <<<<0, 3, ONE>>>>, "mean", ""), Add(1, <<<<0, 1, ONE>>>>, "median", "")}
  \cup {Mk(x, 1) : x \in {"clear", "addextra", "rmextra", "rmloop", "reverse"}}
StartsD == {New("D", 0, 3, <<>>, FALSE), New("D", 0, 3, <<<<0, 1, ONE>>, <<2, 2, 2 * ONE>>>>, TRUE)}

CallsB(st) ==
  {Add(1, <<<<p[1], p[2], q[2]>>>>, q[1], "") : p \in {<<0, 1>>, <<1, 0>>, <<1, 1>>}, q \in OpW}
  \cup {Add(1, <<<<0, 1, ONE>>, <<1, 0, 3 * ONE>>, <<1, 1, ONE>>, <<0, 1, 2 * ONE>>>>, m, "") : m \in MergeOps}
  \cup {Rem(1, ps, FALSE, "") : ps \in {<<<<1, 0>>>>, <<<<1, 1>>>>, <<>>, <<<<0, 1>>, <<1, 0>>>>}}
  \cup {Add(1, <<<<0, 3, ONE>>>>, "mean", ""), Add(1, <<<<0, 1, ONE>>>>, "median", "")}
  \cup {Mk("clear", 1), [op |-> "switch", o |-> 1, r |-> 1]}
StartsB == {New("B", 2, 2, <<>>, FALSE), New("B", 2, 3, <<<<0, 1, ONE>>, <<1, 2, 2 * ONE>>>>, FALSE)}

CallsH(st) ==
  {Add(1, <<<<e, q[2]>>>>, q[1], g) : e \in {<<0, 1>>, <<2, 1, 0>>}, q \in OpW, g \in {"main", "g1"}}
  \cup {Add(1, <<<<<<1, 0>>, ONE>>, <<<<2>>, 2 * ONE>>, <<<<0, 1>>, 3 * ONE>>>>, m, "g1") : m \in MergeOps}
  \cup {Rem(1, <<e>>, og, g) : e \in {<<1, 0>>, <<2>>}, og \in {TRUE, FALSE}, g \in {"main", "g1"}}
  \cup {[op |-> "rmgroup", o |-> 1, grp |-> g] : g \in {"main", "g1"}}
  \cup {Mk("clear", 1), Add(1, <<<<<<0, 1>>, ONE>>, <<<<0, 1>>, ONE>>>>, "median", "main")}
StartsH == {New("H", 0, 3, <<>>, FALSE),
            [New("H", 0, 3, <<<<<<0, 1>>, 2 * ONE>>>>, FALSE) EXCEPT !.vw = <<ONE, 3 * ONE, ONE>>, !.hasvw = TRUE],
            [New("H", 0, 3, <<<<<<0, 1>>, ONE>>, <<<<1, 2>>, 2 * ONE>>>>, FALSE) EXCEPT !.vw = <<ONE, 2 * ONE, 3 * ONE>>, !.hasvw = TRUE]}

(* families: copying and persistence over objects 1..3 and one file *)
Slots == 1..3
Edit(o, k) ==
  CASE k = "H" -> {Add(o, <<<<<<0, 1>>, 2 * ONE>>>>, "sum", "main"), Add(o, <<<<<<1>>, ONE>>>>, "mean", "g1"),
                   Rem(o, <<<<0, 1>>>>, FALSE, ""), Mk("clear", o), [op |-> "rmgroup", o |-> o, grp |-> "g1"]}
    [] k = "B" -> {Add(o, <<<<0, 1, 2 * ONE>>>>, "sum", ""), Rem(o, <<<<0, 1>>>>, FALSE, ""), Mk("clear", o)}
    [] OTHER -> {Add(o, <<<<0, 1, 2 * ONE>>>>, "sum", ""), Add(o, <<<<1, 1, ONE>>>>, "mean", ""), Rem(o, <<<<1, 0>>>>, FALSE, ""),
                 Mk("addextra", o), Mk("clear", o)} \cup (IF k = "D" THEN {Mk("reverse", o)} ELSE {})
KindOf(st) == st.heap[1].kind
CallsFam(st) ==
  UNION {Edit(o, KindOf(st)) : o \in DOMAIN st.heap}
  \cup {[op |-> x, o |-> o, r |-> r] : x \in {"clone", "state"}, o \in DOMAIN st.heap, r \in (DOMAIN st.heap \cup {Cardinality(DOMAIN st.heap) + 1}) \cap (2..3)}
  \cup (IF KindOf(st) = "B" THEN {[op |-> "switch", o |-> o, r |-> 2] : o \in DOMAIN st.heap} ELSE {})
CallsFile(st) ==
  Edit(1, KindOf(st))
  \cup (IF 2 \in DOMAIN st.heap THEN {CHOOSE c \in Edit(2, KindOf(st)) : c.op = "add"} ELSE {})
  \cup {[op |-> "save", o |-> o, f |-> "x"] : o \in DOMAIN st.heap}
  \cup (IF "x" \in DOMAIN st.files
        THEN {[op |-> "load", f |-> "x", r |-> 2, via |-> v] : v \in {"any", "G", "D", "B", "H"}} ELSE {})
StartsFam == StartsG \cup StartsD \cup StartsB \cup StartsH
-----------------------------------------------------------------------------
Init == \E c \in Starts : s = Effect(EmptyStore, c) /\ hist = <<c>>
Do(c) == /\ s' = (IF Accepts(s, c) THEN Effect(s, c) ELSE s)
         /\ hist' = Append(hist, c)
         /\ PrintT("TEST " \o ToJson(hist'))
Next == Len(hist) < MaxLen /\ \E c \in Calls(s) : Do(c)
vars == <<s, hist>>
View == s

-----------------------------------------------------------------------------
(* properties of the model *)
GraphOk(g) ==
  /\ g.kind \in GKinds
  /\ \A p \in DOMAIN g.w : GInRange(g, p[1], p[2]) /\ g.w[p] > 0 /\ GKey(g, p[1], p[2]) = p
  /\ g.kind = "G" => LET a == GAdj(g) IN /\ a = Transpose(a, g.nv, g.nv)
                                         /\ \A i \in 1..g.nv : Abs(Sum(GLap(g)[i])) <= 8
                                         /\ \A v \in 0..(g.nv - 1), u \in 0..(g.nv - 1) :
                                              (u \in GWalk(g, {v}, 2)) = (v \in GWalk(g, {u}, 2))
  /\ g.kind = "D" => /\ Sum(DegOut(g)) = Sum(DegIn(g))
                     /\ GReverse(GReverse(g)) = g
                     /\ DegIn(GReverse(g)) = DegOut(g)
  /\ g.kind = "B" => /\ Sum(BDegU(g)) = Sum(BDegV(g)) /\ GSwitch(GSwitch(g)) = g /\ ~g.extra
HyperOk(h) ==
  /\ Len(h.vw) = h.nv
  /\ \A n \in DOMAIN h.gs : \A S \in DOMAIN h.gs[n] : S # {} /\ S \subseteq 0..(h.nv - 1) /\ h.gs[n][S] > 0
StoreOk == /\ \A o \in DOMAIN s.heap : IF s.heap[o].kind = "H" THEN HyperOk(s.heap[o]) ELSE GraphOk(s.heap[o])
           /\ \A f \in DOMAIN s.files : IF s.files[f].kind = "H" THEN HyperOk(s.files[f]) ELSE GraphOk(s.files[f])

LastCall == hist'[Len(hist')]
(* a call changes at most the object (or file) it names *)
FrameProp == [][LET c == LastCall IN
                /\ \A o \in DOMAIN s.heap :
                     s'.heap[o] # s.heap[o] =>
                        (c.op \in Editing /\ c.o = o) \/ (c.op \in {"clone", "state", "switch", "load", "new"} /\ c.r = o)
                /\ \A f \in DOMAIN s.files : s'.files[f] # s.files[f] => c.op = "save" /\ c.f = f]_vars
(* an edge edit changes at most the edges it names; a rejected call changes nothing *)
EdgeFrameProp ==
  [][LET c == LastCall IN
     /\ ~Accepts(s, c) => s' = s
     /\ (c.op = "add" /\ s.heap[c.o].kind # "H") =>
          LET g == s.heap[c.o]  ks == {GKey(g, c.es[i][1], c.es[i][2]) : i \in 1..Len(c.es)} IN
          \A p \in (DOMAIN g.w \cup DOMAIN s'.heap[c.o].w) \ ks :
             p \in DOMAIN g.w /\ p \in DOMAIN s'.heap[c.o].w /\ g.w[p] = s'.heap[c.o].w[p]
     /\ (c.op \in {"add", "remove", "rmgroup"} /\ s.heap[c.o].kind = "H") =>
          LET h == s.heap[c.o]  h2 == s'.heap[c.o] IN
          /\ h.vw = h2.vw
          /\ \A n \in DOMAIN h.gs : (n # c.grp /\ (c.op = "add" \/ c.op = "rmgroup" \/ c.og)) =>
               n \in DOMAIN h2.gs /\ h2.gs[n] = h.gs[n]]_vars
(* clearing forgets everything but the vertices *)
ClearProp == [][LET c == LastCall IN
                c.op = "clear" => LET x == s'.heap[c.o] IN
                  IF x.kind = "H" THEN x.gs = EmptyFn /\ x.vw = UnitWeights(x.nv) ELSE GNumE(x) = 0]_vars
(* re-loading an unchanged file gives the saved structure *)
LoadProp == [][LET c == LastCall IN
               (c.op = "load" /\ Accepts(s, c)) => s'.heap[c.r] = s.files[c.f]]_vars
=============================================================================
