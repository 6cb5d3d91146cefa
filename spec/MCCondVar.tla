------------------------------- MODULE MCCondVar -------------------------------
(* CondVar with an environment that calls anything at any time. *)
EXTENDS CondVar, TLC

CONSTANT World

V(n, proc, force) == [k |-> "cvs", nm |-> n, proc |-> proc, force |-> force]
C(n, proc) == [k |-> "cvc", nm |-> n, proc |-> proc, force |-> FALSE]
S(objs, procs) == [nnames |-> 1, procs |-> procs, objs |-> objs]

Base == [
  plain |-> [sc |-> S(<<V(1, 1, FALSE), C(1, 2), C(1, 3)>>, <<1, 2, 3>>), crash |-> FALSE, max |-> <<>>,
             o |-> {<<"lock">>, <<"unlock">>, <<"wait">>, <<"n1">>, <<"na">>}],
  timed |-> [sc |-> S(<<V(1, 1, FALSE), C(1, 2)>>, <<1, 2>>), crash |-> FALSE, max |-> <<>>,
             o |-> {<<"lock">>, <<"unlock">>, <<"mlock">>, <<"munlock">>, <<"twait", 20>>, <<"twait", 0>>, <<"n1">>}],
  pred  |-> [sc |-> S(<<V(1, 1, FALSE), C(1, 2), C(1, 3)>>, <<1, 2, 3>>), crash |-> FALSE, max |-> <<>>,
             o |-> {<<"lock">>, <<"unlock">>, <<"waitp", 0, 1>>, <<"twaitp", 20, 0, 1>>, <<"set", 0, 1>>, <<"na">>, <<"n1">>}],
  tiny  |-> [sc |-> S(<<V(1, 1, FALSE), C(1, 2)>>, <<1, 2>>), crash |-> FALSE, max |-> <<>>,
             o |-> {<<"lock">>, <<"unlock">>, <<"waitp", 0, 1>>, <<"twait", 20>>, <<"wait">>, <<"set", 0, 1>>, <<"na">>, <<"n1">>}],
  life  |-> [sc |-> S(<<V(1, 1, FALSE), V(1, 2, FALSE), C(1, 3)>>, <<1, 2, 3>>), crash |-> FALSE, max |-> <<>>,
             o |-> {<<"lock">>, <<"unlock">>, <<"close">>, <<"del">>, <<"new">>}],
  crash |-> [sc |-> S(<<V(1, 1, FALSE), V(1, 2, TRUE), C(1, 3), C(1, 4)>>, <<1, 2, 3, 4>>), crash |-> TRUE, max |-> <<>>,
             o |-> {<<"lock">>, <<"unlock">>, <<"wait">>, <<"na">>}]
  ]
\* how many calls each actor makes
Size == [tiny |-> <<4, 3>>, plain |-> <<3, 3, 3>>, timed |-> <<5, 4>>, pred |-> <<4, 3, 0>>, life |-> <<3, 2, 2>>, crash |-> <<2, 2, 3, 0>>,
         plain2 |-> <<4, 4, 4>>, timed2 |-> <<6, 6>>, pred2 |-> <<4, 3, 3>>, life2 |-> <<4, 3, 3>>, crash2 |-> <<3, 3, 3, 0>>]
Kind == [w \in DOMAIN Size |-> CASE w = "plain2" -> "plain" [] w = "tiny" -> "tiny" [] w = "timed2" -> "timed" [] w = "pred2" -> "pred"
                                 [] w = "life2" -> "life" [] w = "crash2" -> "crash" [] OTHER -> w]
Wd == [Base[Kind[World]] EXCEPT !.max = Size[World]]
MCScenarios == <<Wd.sc>>

VARIABLES calls,   \* actor -> number of calls made
          inside,  \* actor -> it has been told that it has the lock, and has not let go of it
          woken    \* generation -> [n: waits that ended for a notification, m: the most that notifications could wake]

mvars == <<vars, calls, inside, woken>>

MCInit == /\ InitWith(1)
          /\ calls = [a \in Actors |-> 0]
          /\ inside = [a \in Actors |-> FALSE]
          /\ woken = [g \in 1..8 |-> [n |-> 0, m |-> 0]]

Mine(a) == {x \in Objs : Spec_(x).proc = Proc(a)}
Menu == Wd.o
Ops(x) == IF obj[x].st = "none" THEN {<<"new">>} ELSE Menu
\* nobody locks what he has already
Sane(a, o) == o[1] \in {"lock", "mlock"} => ~inside[a]

ECall(a) == /\ calls[a] < Wd.max[a]
            /\ \E x \in Mine(a) : \E o \in Ops(x) :
                  /\ Sane(a, o)
                  /\ Call(a, [o |-> o[1], x |-> x, a |-> Tail(o)], now)
                  \* a wait gives the lock away
                  /\ inside' = [inside EXCEPT ![a] = IF o[1] \in Waits \cup {"unlock", "munlock", "del", "new"} THEN FALSE ELSE @]
            /\ calls' = [calls EXCEPT ![a] = @ + 1]
            /\ UNCHANGED woken
ERet(a) ==  LET r == act[a].res IN
            /\ Pend(a, "done")
            /\ Ret(a, IF r.s = "any" THEN "ok" ELSE r.s, r.v, now)
            /\ inside' = [inside EXCEPT ![a] = IF r.s # "any" /\ (r.s \notin {"exc", "none"}) /\ Op(a).o \in Waits \cup {"lock", "mlock"} THEN TRUE ELSE @]
            /\ UNCHANGED <<calls, woken>>
ESilent(a) == /\ Silent(a)
              /\ LET g == G(a) o == Op(a).o IN
                 woken' = IF g = 0 THEN woken
                          ELSE IF Pend(a, "start") /\ o = "n1" THEN [woken EXCEPT ![g].m = @ + 1]
                          ELSE IF Pend(a, "start") /\ o = "na" THEN [woken EXCEPT ![g].m = @ + Cardinality(gens[g].waiting)]
                          ELSE IF Pend(a, "wait") /\ o \in {"wait", "twait"} /\ act'[a].pc = "done" /\ ~act[a].timed /\ act'[a].res.s # "any"
                          THEN [woken EXCEPT ![g].n = @ + 1] ELSE woken
              /\ UNCHANGED <<calls, inside>>
ECrash(p) == Wd.crash /\ p # 2 /\ (\E a \in Actors : Proc(a) = p /\ act[a].st # "dead" /\ calls[a] > 0) /\ Crash(p, now)
             /\ inside' = [a \in Actors |-> IF Proc(a) = p THEN FALSE ELSE inside[a]]
             /\ UNCHANGED <<calls, woken>>

MCNext == (\E a \in Actors : ECall(a) \/ ERet(a) \/ ESilent(a)) \/ (\E p \in 1..4 : ECrash(p))
Prompt(a) == ERet(a) \/ (ESilent(a) /\ ~Timeout(a) /\ ~Spurious(a))
MCSpec == MCInit /\ [][MCNext]_mvars
Everybody == 1..Len(Wd.max)
FairSpec == MCSpec /\ \A a \in Everybody : WF_mvars(Prompt(a))

----------------------------------------------------------------------------
Sound(a) == \A x \in Mine(a) : Open(x) => ~gens[obj[x].g].wild /\ obj[x].st # "mixed"

\* at most one is inside: told to hold the lock of the same condition variable
Exclusion == \A a, b \in Actors : a < b /\ inside[a] /\ inside[b] /\ Sound(a) /\ Sound(b) =>
                \A x \in Mine(a), y \in Mine(b) : Open(x) /\ Open(y) => obj[x].g # obj[y].g
\* who is inside has the lock
HolderHas == \A a \in Actors : inside[a] /\ act[a].st = "idle" /\ Sound(a) => \E x \in Mine(a) : Open(x) /\ gens[obj[x].g].owner \in {x, 100 + x}
\* who waits does not have the lock (except where he holds it through another handle)
WaitersOut == \A g \in DOMAIN gens : \A a \in gens[g].waiting : ~gens[g].wild => gens[g].owner # X(a)
\* no more wake up than are notified
NoFreeWake == \A g \in DOMAIN gens : woken[g].n <= woken[g].m
\* predicate waits promise
Promise == \A a \in Actors : Pend(a, "done") /\ Predicated(a) /\ act[a].res.s \in {"ok", "t"} /\ ~Lost(X(a)) /\ gens[G(a)].owner = X(a) => Pred(a)
NotEarly == \A a \in Actors : act[a].timed /\ act[a].st = "pend" => now >= act[a].start + Limit(Op(a))
\* a name has one owner
OneOwner == \A x, y \in Objs : x # y /\ Owns(x) /\ Owns(y) /\ Name(x) = Name(y) => Spec_(x).force \/ Spec_(y).force
OpensExisting == [][\A x \in Objs : ~Open(x) /\ obj'[x].st = "open" => cur'[Name(x)] = obj'[x].g]_mvars
CreatesNew == [][\A x \in Objs : ~Open(x) /\ obj'[x].st = "open" /\ IsSrv(x) => cur[Name(x)] = 0 \/ Spec_(x).force]_mvars
NotifiedAll == [][\A a \in Actors : Pend(a, "start") /\ Op(a).o = "na" /\ Open(X(a)) /\ act'[a].pc = "done" /\ act'[a].res.s = "ok"
                   => gens'[G(a)].waiting = {}]_mvars
NotifiedOne == [][\A a \in Actors : Pend(a, "start") /\ Op(a).o = "n1" /\ Open(X(a)) /\ act'[a].pc = "done" /\ act'[a].res.s = "ok"
                   => Cardinality(gens'[G(a)].waiting) = IF gens[G(a)].waiting = {} THEN 0 ELSE Cardinality(gens[G(a)].waiting) - 1]_mvars

\* (with FairSpec) a notified waiter that gets the lock returns, or goes on waiting for its predicate
Returns == \A a \in Everybody : (Pend(a, "wait") /\ a \notin gens[G(a)].waiting)
              ~> (act[a].st # "pend" \/ ~Pend(a, "wait") \/ a \in gens[G(a)].waiting \/ gens[G(a)].owner # 0)
=============================================================================
