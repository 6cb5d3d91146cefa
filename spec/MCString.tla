------------------------------- MODULE MCString -------------------------------
(* StringTensor with an environment that calls anything at any time. *)
EXTENDS StringTensor, TLC

CONSTANT World

O_(k, nm, proc, safe, cols) ==
    [k |-> k, nm |-> nm, proc |-> proc, dt |-> 2, lay |-> 1, safe |-> safe, force |-> FALSE, rows |-> 1, cols |-> cols]
S_(proc, cols) == O_("sts", 1, proc, TRUE, cols)
C_(proc) == O_("stc", 1, proc, TRUE, 0)
SC_(procs, objs) == [nnames |-> 1, procs |-> procs, objs |-> objs, strs |-> <<0, 5, 1024, 1025>>]

Worlds == [
  data  |-> [sc |-> SC_(<<1, 2>>, <<S_(1, 2), C_(2)>>), max |-> <<5, 5>>,
             o |-> {<<"ws", 0, 1>>, <<"ws", 1, 2>>, <<"ws", -1, 1>>, <<"ws", 0, 3>>, <<"wl", 0, 2, 1>>, <<"wl", 1, 2, 1>>, <<"rl", 0, 2>>, <<"rs", 1>>, <<"rl", 1, 2>>}],
  share |-> [sc |-> SC_(<<1, 2, 3>>, <<S_(1, 2), C_(2), C_(3)>>), max |-> <<4, 4, 3>>,
             o |-> {<<"wl", 0, 1, 1>>, <<"wl", 0, 2, 2>>, <<"rl", 0, 2>>, <<"rs", 1>>}],
  life  |-> [sc |-> SC_(<<1, 2>>, <<S_(1, 1), C_(2)>>), max |-> <<6, 6>>,
             o |-> {<<"run">>, <<"close">>, <<"del">>, <<"ncl">>, <<"ws", 0, 1>>, <<"rs", 0>>, <<"shm">>, <<"isrun">>}],
  data2 |-> [sc |-> SC_(<<1, 2>>, <<S_(1, 2), C_(2)>>), max |-> <<6, 6>>,
             o |-> {<<"ws", 0, 1>>, <<"ws", 1, 2>>, <<"ws", -1, 1>>, <<"ws", 0, 3>>, <<"wl", 0, 2, 1>>, <<"wl", 1, 2, 1>>, <<"rl", 0, 2>>, <<"rs", 1>>, <<"rl", 1, 2>>}],
  share2 |-> [sc |-> SC_(<<1, 2, 3>>, <<S_(1, 2), C_(2), C_(3)>>), max |-> <<5, 4, 4>>,
             o |-> {<<"wl", 0, 1, 1>>, <<"wl", 0, 2, 2>>, <<"rl", 0, 2>>, <<"rs", 1>>}]]
Wd == Worlds[World]
MCScenarios == <<Wd.sc>>

VARIABLE calls
mvars == <<vars, calls>>

MCInit == InitWith(1) /\ calls = [a \in Actors |-> 0]
Mine(a) == {x \in Objs : Spec_(x).proc = Proc(a)}
Menu(x) == IF obj[x].st = "none" THEN {<<"new">>} ELSE IF obj[x].st \in {"init", "det"} THEN {<<"run">>} \cup Wd.o ELSE Wd.o

ECall(a) == /\ calls[a] < Wd.max[a]
            /\ \E x \in Mine(a) : \E o \in Menu(x) : SCall(a, [o |-> o[1], x |-> x, a |-> Tail(o)])
            /\ calls' = [calls EXCEPT ![a] = @ + 1]
ERet(a) == Pend(a, "done") /\ act' = [act EXCEPT ![a] = Idle] /\ UNCHANGED <<sid, gens, cur, dirty, obj, calls>>
ESilent(a) == StrSilent(a) /\ UNCHANGED <<calls>>
MCNext == \E a \in Actors : ECall(a) \/ ERet(a) \/ ESilent(a)
MCSpec == MCInit /\ [][MCNext]_mvars

----------------------------------------------------------------------------
\* only strings that fit are ever there
Fitting == \A g \in DOMAIN gens : \A k \in DOMAIN gens[g].data : StrLen(gens[g].data[k]) <= MaxChars
G_(a) == obj[X(a)].g
\* C20: what a write changes is what it was told to write, where it was told to
Exact == [][\A g \in DOMAIN gens : \A k \in DOMAIN gens[g].data : gens'[g].data[k] # gens[g].data[k] =>
              \E a \in Actors : /\ Pend(a, "start") /\ act'[a].pc # "start" /\ ListWrite(Op(a)) /\ G_(a) = g
                                /\ LET p == Op(a).a[1] IN k > p /\ k <= p + Len(Args(Op(a))) /\ gens'[g].data[k] = Args(Op(a))[k - p]]_mvars
\* C20: what a successful write wrote is there until the next write
Stored == \A a \in Actors : act[a].st = "pend" /\ act[a].pc = "unlock" /\ ListWrite(Op(a)) /\ act[a].res.s = "t" =>
              \A i \in DOMAIN Args(Op(a)) : gens[act[a].g].data[Op(a).a[1] + i] = Args(Op(a))[i]
\* C21: in the worlds where all lists are written at once, nobody sees a mixture
WholeLists == World \in {"share", "share2"} => \A a \in Actors : act[a].st = "pend" /\ Op(a).o = "rl" /\ act[a].res.s = "t" =>
              act[a].res.v \in {<<0, 0>>, <<1, 1>>, <<2, 2>>}

Exclusive == \A g \in DOMAIN gens : gens[g].sem \in {0, 1}
\* refused calls change nothing
Refused == [][\A a \in Actors : Pend(a, "start") /\ act'[a].pc = "done" /\ act'[a].res.s = "f" /\ Op(a).o \in {"ws", "wl", "rs", "rl"} => gens' = gens]_mvars
\* looking changes nothing
Looking == [][\A a \in Actors : Pend(a, "start") /\ act'[a].pc # "start" /\ Op(a).o \in {"len", "shm", "raw", "issrv", "again", "isrun"} => gens' = gens /\ obj' = obj /\ cur' = cur]_mvars
\* length comes from the server
Lengths == \A x \in Objs : obj[x].st = "att" /\ gens[obj[x].g].run => gens[obj[x].g].cols = Spec_(1).cols
=============================================================================
