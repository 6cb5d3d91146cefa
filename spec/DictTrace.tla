------------------------------ MODULE DictTrace ------------------------------
(* Is every recorded execution a behaviour of TensorDict?  (see TensorTrace) *)
EXTENDS TensorDict, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACES)
TScenarios == Data.scenarios
Nodes == Data.nodes
Roots == Data.roots

VARIABLE n

Ev(i) == Nodes[i].e

ASSUME \A i \in 1..Len(Nodes) : TLCSet(i, FALSE)

TInit == \E i \in 1..Len(Roots) :
            /\ n = Roots[i]
            /\ DInitWith(Nodes[Roots[i]].s)
            /\ TLCSet(n, TRUE)

Step(e) ==
    CASE e.t = "c" -> DCall(e.a, e.op)
      [] e.t = "r" -> DRet(e.a, e.s, e.v)
      [] e.t = "s" -> DStuck({e.v[i] : i \in DOMAIN e.v})
      [] OTHER -> FALSE

TNext ==
    \/ \E i \in 1..Len(Nodes[n].k) :
          LET c == Nodes[n].k[i] IN
          /\ Step(Ev(c))
          /\ n' = c
          /\ TLCSet(c, TRUE)
    \/ /\ Len(Nodes[n].k) > 0
       /\ \E a \in Actors : DSilent(a)
       /\ n' = n

TSpec == TInit /\ [][TNext]_<<dvars, n>>

Accepted ==
    LET bad == {i \in 1..Len(Nodes) : ~TLCGet(i) /\ TLCGet(Nodes[i].p)} IN
    PrintT(<<"UNEXPLAINED", bad>>)

=============================================================================
