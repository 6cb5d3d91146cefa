----------------------------- MODULE TensorTrace -----------------------------
(* Is every recorded execution a behaviour of Tensor?  The executions of a   *)
(* scenario are merged into a tree of events; a state is a node together     *)
(* with a state of the specification that explains the events leading to it. *)
EXTENDS Tensor, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACES)
TScenarios == Data.scenarios
Nodes == Data.nodes       \* node -> [k: its children, e: the event leading to it, s: its scenario]
Roots == Data.roots

VARIABLE n

Ev(i) == Nodes[i].e

ASSUME \A i \in 1..Len(Nodes) : TLCSet(i, FALSE)

TInit == \E i \in 1..Len(Roots) :
            /\ n = Roots[i]
            /\ InitWith(Nodes[Roots[i]].s)
            /\ TLCSet(n, TRUE)

Step(e) ==
    CASE e.t = "c" -> Call(e.a, e.op)
      [] e.t = "r" -> Ret(e.a, e.s, e.v)
      [] e.t = "x" -> Crash(e.a)
      [] e.t = "i" -> Interrupt(e.a)
      [] e.t = "j" -> Refuse(e.a)
      [] e.t = "s" -> Stuck({e.v[i] : i \in DOMAIN e.v})
      [] OTHER -> FALSE

TNext ==
    \/ \E i \in 1..Len(Nodes[n].k) :
          LET c == Nodes[n].k[i] IN
          /\ Step(Ev(c))
          /\ n' = c
          /\ TLCSet(c, TRUE)
    \/ /\ Len(Nodes[n].k) > 0
       /\ \E a \in Actors : Silent(a)
       /\ n' = n

TSpec == TInit /\ [][TNext]_<<vars, n>>

Accepted ==
    LET bad == {i \in 1..Len(Nodes) : ~TLCGet(i) /\ TLCGet(Nodes[i].p)} IN
    PrintT(<<"UNEXPLAINED", bad>>)

=============================================================================
