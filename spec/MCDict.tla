-------------------------------- MODULE MCDict --------------------------------
(* TensorDict with an environment that calls anything at any time. *)
EXTENDS TensorDict, TLC

CONSTANT World

O_(k, proc, rows, cols) ==
    [k |-> k, nm |-> 1, proc |-> proc, dt |-> 0, lay |-> 1, safe |-> TRUE, force |-> FALSE, rows |-> rows, cols |-> cols]
SC_(procs, objs) == [nnames |-> 1, procs |-> procs, objs |-> objs]
W_(name, v, n, m, retry) == <<"dw", <<name, v, 1, n, m, 0, retry>>>>
Ops == {W_(1, 3, 1, 1, 1), W_(2, 5, 2, 1, 0), W_(2, 8, 1, 1, 1), W_(1, 9, 2, 1, 0), W_(7, 4, 1, 1, 1), <<"ds", <<0>>>>, <<"ds", <<1>>>>, <<"dg", <<1>>>>, <<"dg", <<2>>>>}
Worlds == [
  start |-> [sc |-> SC_(<<1, 2, 3>>, <<O_("dcs", 1, 3, 1), O_("dcc", 2, 0, 0), O_("dcc", 3, 0, 0)>>), max |-> <<5, 5, 4>>, new |-> <<2, 1, 2, 1, 2>>,
             o |-> {W_(1, 3, 1, 1, 1), <<"dg", <<1>>>>}],
  blocks |-> [sc |-> SC_(<<1, 2>>, <<O_("dcs", 1, 3, 1), O_("dcc", 2, 0, 0)>>), max |-> <<6, 6>>, new |-> <<2, 1, 2, 1, 2>>, o |-> Ops],
  blocks2 |-> [sc |-> SC_(<<1, 2, 3>>, <<O_("dcs", 1, 3, 1), O_("dcc", 2, 0, 0), O_("dcc", 3, 0, 0)>>), max |-> <<5, 4, 4>>, new |-> <<2, 1, 2, 1, 2>>, o |-> Ops]]
Wd == Worlds[World]
MCScenarios == <<Wd.sc>>

VARIABLE calls
mvars == <<dvars, calls>>
MCInit == DInitWith(1) /\ calls = [a \in Actors |-> 0]
Mine(a) == {x \in Objs : Spec_(x).proc = Proc(a)}
Menu(x) == IF obj[x].st = "none" THEN {<<"new", Wd.new>>}
           ELSE IF obj[x].st \in {"init", "det"} THEN {<<"run", <<>>>>} ELSE Wd.o
ECall(a) == /\ calls[a] < Wd.max[a]
            /\ \E x \in Mine(a) : \E o \in Menu(x) : DCall(a, [o |-> o[1], x |-> x, a |-> o[2]])
            /\ calls' = [calls EXCEPT ![a] = @ + 1]
ERet(a) == Pend(a, "done") /\ ph[a] = "" /\ act' = [act EXCEPT ![a] = Idle] /\ UNCHANGED <<sid, gens, cur, dirty, obj, vw, ph, dd, pub, calls>>
ESilent(a) == DSilent(a) /\ UNCHANGED <<calls>>
MCNext == \E a \in Actors : ECall(a) \/ ERet(a) \/ ESilent(a)
MCSpec == MCInit /\ [][MCNext]_mvars

----------------------------------------------------------------------------
\* between operations, a dictionary that is running knows names and dimensions, and they cover its rows
Informed == \A x \in Objs : IsDict(x) /\ Active(x) /\ (\A a \in Actors : act[a].st = "pend" => X(a) # x) =>
               /\ \E p \in pub : p.g = obj[x].g /\ p.names = dd[x].names /\ p.dims = dd[x].dims
               /\ Sum(dd[x].dims, Len(dd[x].dims)) = vw[x].rows
\* what is published belongs to the server
Sound == \A p \in pub : \E x \in Objs : Spec_(x).k = "dcs" /\ dd[x].names = p.names /\ dd[x].dims = p.dims
\* only writes to its block change a row once the dictionary is published; before, only the fill does
Blocks == [][\A g \in DOMAIN gens : \A k \in DOMAIN gens[g].data : gens'[g].data[k] # gens[g].data[k] =>
               \/ ~Published(g) /\ gens'[g].data[k] = NaN
               \/ \E a \in Actors : /\ act[a].st = "pend" /\ Op(a).o \in {"vw", "vwr"} /\ obj[X(a)].g = g
                                    /\ LET i == (k - 1) \div gens[g].cols IN
                                       \E nm \in {dd[X(a)].names[j] : j \in DOMAIN dd[X(a)].names} :
                                           /\ First(X(a), nm) = Op(a).a[1]
                                           /\ i >= First(X(a), nm) /\ i < First(X(a), nm) + Dim(X(a), nm)]_mvars
\* nobody has a chance to write before the fill is over
FillFirst == \A a \in Actors : ph[a] \in {"fill", "filled", "tell"} =>
                 \A k \in DOMAIN gens[obj[X(a)].g].data : gens[obj[X(a)].g].data[k] \in {0, NaN}
Exclusive == \A g \in DOMAIN gens : gens[g].sem \in {0, 1}
\* getting a block after synchronising returns what was there
Fresh == [][\A a \in Actors : act[a].st = "pend" /\ Op(a).o = "sa" /\ act[a].pc = "start" /\ act'[a].pc = "unlock" =>
              vw'[X(a)].mir = gens[obj[X(a)].g].data]_mvars
=============================================================================
