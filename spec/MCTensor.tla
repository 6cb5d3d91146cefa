------------------------------ MODULE MCTensor ------------------------------
(* Exhaustive checking of Tensor in small worlds: every actor calls any of   *)
(* its operations at any time.                                               *)
EXTENDS Tensor, TLC

VARIABLE ncrash
mvars == <<vars, ncrash>>

O_(k, nm, proc, dt, safe, force, rows, cols) ==
    [k |-> k, nm |-> nm, proc |-> proc, dt |-> dt, lay |-> 1, safe |-> safe, force |-> force, rows |-> rows, cols |-> cols]

Srv(proc, dt, force, rows, cols) == O_("srv", 1, proc, dt, TRUE, force, rows, cols)
Cli(proc, dt) == O_("cli", 1, proc, dt, TRUE, FALSE, 0, 0)
AllS == {"new", "run", "stop", "close", "del", "ncl", "acq", "rel", "w", "r"}
AllC == {"new", "attach", "detach", "close", "del", "acq", "rel", "w", "r"}

\* a world: what exists, what may be called, how many servers are created, what may go wrong
Worlds == [
  rivals |-> \* servers of different shape one after the other or at once, a client, one of another type
    [sc |-> [nnames |-> 1, procs |-> <<1, 2, 3, 4>>,
             objs |-> <<Srv(1, 2, FALSE, 1, 1), Srv(2, 2, FALSE, 1, 2), Cli(3, 2), Cli(4, 1)>>],
     sops |-> {"new", "run", "stop", "close"}, cops |-> {"new", "attach", "detach"}, gens |-> 2, crashes |-> 0, faults |-> {}],
  locks |-> \* everything that takes the tensor
    [sc |-> [nnames |-> 1, procs |-> <<1, 2, 3>>, objs |-> <<Srv(1, 2, FALSE, 1, 1), Cli(2, 2), Cli(3, 2)>>],
     sops |-> {"new", "run", "stop", "ncl", "acq", "rel", "w", "r"},
     cops |-> {"new", "attach", "detach", "acq", "rel", "w", "r"}, gens |-> 1, crashes |-> 0, faults |-> {}],
  crash |-> \* crash and recovery
    [sc |-> [nnames |-> 1, procs |-> <<1, 2, 3>>, objs |-> <<Srv(1, 2, FALSE, 1, 1), Srv(2, 2, TRUE, 1, 2), Cli(3, 2)>>],
     sops |-> {"new", "run", "close"}, cops |-> {"new", "attach", "detach", "w"}, gens |-> 2, crashes |-> 2, faults |-> {}],
  names |-> \* two names
    [sc |-> [nnames |-> 2, procs |-> <<1, 2>>,
             objs |-> <<Srv(1, 2, FALSE, 1, 1), O_("cli", 2, 1, 2, TRUE, FALSE, 0, 0),
                        O_("srv", 2, 2, 2, TRUE, FALSE, 1, 1), Cli(2, 2)>>],
     sops |-> {"new", "run", "close", "w"}, cops |-> {"new", "attach", "detach", "w"}, gens |-> 3, crashes |-> 1, faults |-> {}],
  life |-> \* every operation at any time
    [sc |-> [nnames |-> 1, procs |-> <<1, 2>>, objs |-> <<Srv(1, 2, FALSE, 1, 1), Cli(2, 2)>>],
     sops |-> AllS, cops |-> AllC, gens |-> 2, crashes |-> 0, faults |-> {}],
  refused |-> \* interrupted and refused system calls
    [sc |-> [nnames |-> 1, procs |-> <<1, 2, 3>>, objs |-> <<Srv(1, 2, FALSE, 1, 1), Cli(2, 2), Cli(3, 2)>>],
     sops |-> {"new", "run", "close", "ncl"}, cops |-> {"new", "attach", "detach", "acq", "rel"}, gens |-> 2, crashes |-> 0,
     faults |-> {"intr", "inj"}]]
CONSTANT World
W_ == Worlds[World]
MCScenarios == <<W_.sc>>

Mine(a) == {x \in Objs : Spec_(x).proc = Proc(a)}
W(v) == <<0, 0, 1, 1, v, 0, 0>>
R == <<0, 0, 1, 1, 0>>

\* what an environment that respects the rules of the library may call
CanCall(a, x, o) ==
    CASE o = "new" -> /\ obj[x].st = "none"
                      /\ IsSrv(x) => /\ Len(gens) < W_.gens
                                     /\ Spec_(x).force => (cur[Name(x)] = 0 \/ dirty[Name(x)])
                                     /\ \A b \in Actors \ {a} : ~(act[b].st = "pend" /\ act[b].op.o = "new"
                                            /\ IsSrv(act[b].op.x) /\ (Spec_(x).force \/ Spec_(act[b].op.x).force))
      [] obj[x].st = "none" -> FALSE
      [] o = "rel" -> obj[x].h > 0
      [] o = "acq" -> obj[x].h = 0
      [] o \in {"detach", "close", "del", "attach", "ncl"} -> obj[x].h = 0
      [] OTHER -> TRUE

MCCall(a) == \E x \in Mine(a) : \E o \in IF IsSrv(x) THEN W_.sops ELSE W_.cops :
    /\ CanCall(a, x, o)
    /\ \A y \in Mine(a) \ {x} : o \in {"w", "r"} \/ obj[y].h = 0
    /\ Call(a, [o |-> o, x |-> x, a |-> CASE o = "w" -> W(1) [] o = "r" -> R [] OTHER -> <<>>])
MCRet(a) == Pend(a, "done") /\ act[a].st = "pend" /\ act' = [act EXCEPT ![a] = Idle] /\ UNCHANGED <<sid, gens, cur, dirty, obj>>

MCInit == (\E s \in 1..Len(Scenarios) : InitWith(s)) /\ ncrash = 0
MCNext ==
    \/ /\ LET D == {a \in Actors : act[a].st = "pend" /\ act[a].pc = "done"} IN
          IF D # {} THEN MCRet(CHOOSE a \in D : TRUE)   \* (returning commutes with everything)
          ELSE \E a \in Actors : MCCall(a) \/ Silent(a)
       /\ UNCHANGED ncrash
    \/ /\ ncrash < W_.crashes
       /\ \E p \in {Proc(a) : a \in {b \in Actors : act[b].st # "dead"}} : Crash(p)
       /\ ncrash' = ncrash + 1
    \/ \* at most one fault at a time
       /\ \A b \in Actors : ~act[b].intr /\ ~act[b].inj
       /\ UNCHANGED ncrash
       /\ \/ "intr" \in W_.faults /\ \E a \in Actors : act[a].pc # "done" /\ Op(a).o \in {"acq", "attach", "detach", "ncl"} /\ Interrupt(a)
          \/ "inj" \in W_.faults /\ \E a \in Actors : act[a].pc # "done" /\ Op(a).o \in {"new", "attach"} /\ Refuse(a)
MCSpec == MCInit /\ [][MCNext]_mvars

----------------------------------------------------------------------------
G == 1..Len(gens)
Sound(g) == ~gens[g].wild
Holding(g) == Cardinality({a \in Actors : act[a].st = "pend" /\ act[a].g = g /\ act[a].pc \in {"unlock", "alocked", "adetached"}})
Manual(g) == LET H == {x \in Objs : obj[x].h > 0 /\ (obj[x].g = g \/ g \in obj[x].lg)} IN Cardinality(H)

NoCrash == ncrash = 0
\* what happens to a tensor somebody crashed on is arbitrary, but not arbitrarily much of it
Bounded == \A g \in G : gens[g].wild => gens[g].cnt \in -1..1 /\ gens[g].sem <= 2

\* C03, C02: at most one holder of a tensor, and it is free when nobody holds it
Exclusive == NoCrash => \A g \in G : gens[g].sem \in {0, 1} /\
    gens[g].sem + Holding(g) + Manual(g) = IF gens[g].never THEN 0 ELSE 1
\* C01: at most one server of a name
OneServer == \A n \in DOMAIN cur : Cardinality({x \in Objs : IsSrv(x) /\ Name(x) = n /\ SrvOpen(x)}) <= 1
\* ... and it owns the name
Owner == \A x \in Objs : IsSrv(x) /\ SrvOpen(x) => cur[Name(x)] = obj[x].g
\* C06: the counter is exact
Count == NoCrash => \A g \in G : gens[g].cnt = Cardinality({x \in Objs : ~IsSrv(x) /\ obj[x].st = "att" /\ obj[x].g = g})
\* also after crashes of others, for servers created afterwards
CountBound == \A g \in G : Sound(g) => gens[g].cnt >= Cardinality({x \in Objs : ~IsSrv(x) /\ obj[x].st = "att" /\ obj[x].g = g})
\* C05: no client is attached to a server of another type
Typed == \A x \in Objs : ~IsSrv(x) /\ obj[x].st = "att" => TypesMatch(x, obj[x].g)
\* C04: a client that just attached did so while the server was running
AttachedToRunning == [][\A a \in Actors : (act[a].pc = "alocked" /\ act'[a].pc = "unlock" /\ act'[a].res.s = "ok") => Running(act[a].g)]_mvars
\* C04, C09: shapes are the servers', new tensors are zero
Shapes == \A x \in Objs : IsSrv(x) /\ SrvOpen(x) => gens[obj[x].g].rows = Spec_(x).rows /\ gens[obj[x].g].cols = Spec_(x).cols
Fresh == \A g \in G : gens[g].never /\ ~gens[g].run => \A k \in DOMAIN gens[g].data : gens[g].data[k] = 0
\* C09: nothing of a closed server is running
Closed == NoCrash => \A n \in DOMAIN cur : cur[n] = 0 => \A g \in G : gens[g].nm = n => ~gens[g].run
\* C01, C13: only operations on a name change its state
Isolation == [][\A n \in DOMAIN cur : cur'[n] # cur[n] =>
                   \E a \in Actors : act[a].st = "pend" /\ act[a].op.x # 0 /\ IsSrv(act[a].op.x) /\ Name(act[a].op.x) = n]_mvars
OldGensFrozen == [][\A g \in G : cur[gens[g].nm] # g => (gens'[g].run = gens[g].run \/ ~gens'[g].run \/ ncrash > 0)]_mvars
\* C07: a blocked actor waits for a server or for a holder that exists
NoSelfDeadlock == NoCrash => \A a \in Actors :
    (act[a].st = "pend" /\ act[a].pc \in {"start", "adetach"} /\ ~ENABLED Silent(a)) =>
        \E g \in G : gens[g].sem = 0 /\ (Holding(g) > 0 \/ Manual(g) > 0)
=============================================================================
