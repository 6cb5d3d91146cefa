---------------------------- MODULE CondVarTrace ----------------------------
(* Is every recorded execution a behaviour of CondVar?  (see TensorTrace) *)
EXTENDS CondVar, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACES)
TScenarios == Data.scenarios
Nodes == Data.nodes
Roots == Data.roots

VARIABLE n

Ev(i) == Nodes[i].e
ASSUME \A i \in 1..Len(Nodes) : TLCSet(i, FALSE)

TInit == \E i \in 1..Len(Roots) :
            /\ n = Roots[i]
            /\ InitWith(Nodes[Roots[i]].s)
            /\ TLCSet(n, TRUE)

Ms(e) == IF "ms" \in DOMAIN e THEN e.ms ELSE now

Step(e) ==
    CASE e.t = "c" -> Call(e.a, e.op, Ms(e))
      [] e.t = "r" -> Ret(e.a, e.s, e.v, Ms(e))
      [] e.t = "x" -> Crash(e.a, Ms(e))
      [] e.t = "J" -> Jump(Ms(e))
      [] e.t \in {"i", "j"} -> UNCHANGED vars
      [] e.t = "s" -> Stuck({e.v[i] : i \in DOMAIN e.v})
      [] OTHER -> FALSE

TNext ==
    \/ \E i \in 1..Len(Nodes[n].k) :
          LET c == Nodes[n].k[i] IN
          /\ Step(Ev(c))
          /\ n' = c
          /\ TLCSet(c, TRUE)
    \/ /\ Len(Nodes[n].k) > 0
       /\ \E a \in Actors : Silent(a)
       /\ n' = n

TSpec == TInit /\ [][TNext]_<<vars, n>>

Accepted ==
    LET bad == {i \in 1..Len(Nodes) : ~TLCGet(i) /\ TLCGet(Nodes[i].p)} IN
    PrintT(<<"UNEXPLAINED", bad>>)

=============================================================================
