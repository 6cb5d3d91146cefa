------------------------------- MODULE MCTrigger -------------------------------
(* Trigger with an environment that calls anything at any time. *)
EXTENDS Trigger, TLC

CONSTANT World

P(n, proc, force) == [k |-> "prod", nm |-> n, proc |-> proc, force |-> force]
C(n, proc) == [k |-> "cons", nm |-> n, proc |-> proc, force |-> FALSE]
S(objs, procs) == [nnames |-> 1, procs |-> procs, objs |-> objs]

\* [objs, procs, ops: what each actor may call, max: number of calls of each actor]
Worlds == [
  duo   |-> [sc |-> S(<<P(1, 1, FALSE), C(1, 2), C(1, 3)>>, <<1, 2, 3>>), crash |-> FALSE, max |-> <<5, 4, 4>>, ms |-> {0},
             p |-> {"trig"}, c |-> {"wait"}],
  pair  |-> [sc |-> S(<<P(1, 1, FALSE), C(1, 2)>>, <<1, 2>>), crash |-> FALSE, max |-> <<6, 6>>, ms |-> {0, 20},
             p |-> {"trig", "wack"}, c |-> {"wait", "wna", "ack"}],
  acks  |-> [sc |-> S(<<P(1, 1, FALSE), C(1, 2), C(1, 3)>>, <<1, 2, 3>>), crash |-> FALSE, max |-> <<5, 4, 4>>, ms |-> {0},
             p |-> {"wack"}, c |-> {"ack"}],
  timed |-> [sc |-> S(<<P(1, 1, FALSE), C(1, 2), C(1, 3)>>, <<1, 2, 3>>), crash |-> FALSE, max |-> <<4, 3, 3>>, ms |-> {0, 20},
             p |-> {"trig", "wack"}, c |-> {"wait", "ack"}],
  life  |-> [sc |-> S(<<P(1, 1, FALSE), P(1, 2, FALSE), C(1, 3)>>, <<1, 2, 3>>), crash |-> FALSE, max |-> <<5, 3, 3>>, ms |-> {0},
             p |-> {"trig", "close", "del"}, c |-> {"wait", "close"}],
  crash |-> [sc |-> S(<<P(1, 1, FALSE), P(1, 2, TRUE), C(1, 3), C(1, 4)>>, <<1, 2, 3, 4>>), crash |-> TRUE, max |-> <<3, 3, 2, 3>>, ms |-> {0},
             p |-> {"trig"}, c |-> {"wait"}]
  ]
Wd == Worlds[World]
MCScenarios == <<Wd.sc>>

VARIABLES calls,   \* actor -> number of calls made
          got,     \* consumer -> triggers its waits have reported since it runs
          given,   \* generation -> acknowledgements given there (by calls that returned)
          used     \* generation -> acknowledgements its producer has awaited

mvars == <<vars, calls, got, given, used>>

MCInit == /\ InitWith(1)
          /\ calls = [a \in Actors |-> 0]
          /\ got = [x \in Objs |-> 0]
          /\ given = [g \in 1..8 |-> 0] /\ used = [g \in 1..8 |-> 0]

Mine(a) == {x \in Objs : Spec_(x).proc = Proc(a)}

Ops(x) ==
    LET m(o, l) == {[o |-> o, x |-> x, a |-> p] : p \in l} IN
    IF obj[x].st = "none" THEN m("new", {<<>>})
    ELSE IF obj[x].st \in {"init", "idle"} THEN m("run", {<<>>})
    ELSE UNION {CASE o = "wait" -> m(o, {<<t>> : t \in Wd.ms})
                  [] o = "wna" -> m(o, {<<t, b>> : t \in Wd.ms, b \in {0, 1}})
                  [] o = "wack" -> m(o, {<<n, t>> : n \in {1, 2}, t \in Wd.ms})
                  [] OTHER -> m(o, {<<>>}) : o \in (IF IsProd(x) THEN Wd.p ELSE Wd.c)}

ECall(a) == /\ calls[a] < Wd.max[a]
            /\ \E x \in Mine(a) : \E op \in Ops(x) : Call(a, op, now)
            /\ calls' = [calls EXCEPT ![a] = @ + 1]
            /\ got' = got
            /\ UNCHANGED <<given, used>>
ERet(a) ==  LET x == X(a) g == obj[x].g r == act[a].res IN
            /\ Pend(a, "done")
            /\ Ret(a, IF r.s \in {"any", "okexc"} THEN "ok" ELSE r.s, r.v, now)
            /\ got' = CASE Op(a).o \in {"new", "run", "close", "del"} -> [got EXCEPT ![x] = 0]
                        [] Op(a).o = "wait" /\ r.s = "t" -> [got EXCEPT ![x] = @ + 1]
                        [] Op(a).o = "wna" /\ r.v = <<1>> -> [got EXCEPT ![x] = @ + 1]
                        [] OTHER -> got
            /\ given' = IF g # 0 /\ ((Op(a).o = "ack" /\ r.s = "t") \/ (Op(a).o = "wna" /\ r.v = <<1>>)) THEN [given EXCEPT ![g] = @ + 1] ELSE given
            /\ used' = IF g # 0 /\ Op(a).o = "wack" /\ r.s = "t" THEN [used EXCEPT ![g] = @ + Op(a).a[1]] ELSE used
            /\ UNCHANGED calls
ESilent(a) == Silent(a) /\ UNCHANGED <<calls, got, given, used>>
ECrash(p) == Wd.crash /\ p # 2 /\ (\E a \in Actors : Proc(a) = p /\ act[a].st # "dead" /\ calls[a] > 0) /\ Crash(p, now)
             /\ UNCHANGED <<calls, got, given, used>>

MCNext == (\E a \in Actors : ECall(a) \/ ERet(a) \/ ESilent(a)) \/ (\E p \in 1..4 : ECrash(p))
\* everybody proceeds; (a timeout is only due when nothing else can happen)
Prompt(a) == ERet(a) \/ (ESilent(a) /\ ~Timeout(a))
MCSpec == MCInit /\ [][MCNext]_mvars
Everybody == 1..Len(Wd.max)
FairSpec == MCSpec /\ \A a \in Everybody : WF_mvars(Prompt(a))

----------------------------------------------------------------------------
Known(g) == g # 0 /\ ~gens[g].wild
Run(x) == obj[x].st = "run" /\ Known(obj[x].g)

\* C15: a consumer's waits have reported exactly the triggers up to the last one it saw
OncePerTrigger == \A x \in Objs : ~IsProd(x) /\ Run(x) /\ ~(\E a \in Actors : act[a].st = "pend" /\ X(a) = x)
                     => /\ got[x] = obj[x].seen
                        /\ obj[x].seen <= gens[obj[x].g].trig
\* C15: an error only if several are outstanding
NoSilentSkip == \A a \in Actors : (act[a].st = "pend" /\ act[a].pc = "done" /\ Op(a).o \in {"wait", "wna"} /\ Run(X(a)) /\ ~IsProd(X(a)))
                     => (act[a].res.s = "exc" => Outstanding(X(a)) > 1)
\* C16: all that were given are counted; no more are awaited than given
AcksCounted == (\A x \in Objs : obj[x].st \notin {"mixed", "dead"}) =>
               \A g \in DOMAIN gens : ~gens[g].wild => given[g] <= gens[g].ack
                  /\ gens[g].ack <= given[g] + Cardinality({a \in Actors : act[a].st = "pend" /\ Op(a).o \in {"ack", "wna"} /\ act[a].pc = "done"})
AcksAwaited == \A g \in DOMAIN gens : ~gens[g].wild => used[g] <= gens[g].ack
\* C17: nobody times out early
NotEarly == \A a \in Actors : act[a].timed /\ act[a].st = "pend" => now >= act[a].start + Limit(Op(a))
\* C18: counters start at zero and only one producer owns a name
OneProducer == \A x, y \in Objs : x # y /\ IsProd(x) /\ IsProd(y) /\ Alive(x) /\ Alive(y) /\ Name(x) = Name(y) => Spec_(x).force \/ Spec_(y).force
Owned == \A x \in Objs : IsProd(x) /\ obj[x].st = "run" /\ cur[Name(x)] = obj[x].g => gens[obj[x].g].up
ConsumersOfRunning == [][\A x \in Objs : ~IsProd(x) /\ obj[x].st # "run" /\ obj'[x].st = "run" => gens[obj'[x].g].up /\ cur[Name(x)] = obj'[x].g]_mvars
OnlyCounted == [][\A g \in DOMAIN gens : gens'[g].trig \in {gens[g].trig, gens[g].trig + 1} /\ gens'[g].ack \in {gens[g].ack, gens[g].ack + 1}]_mvars

\* C15/C16 (with FairSpec): a wait for something that happened ends
Wakes == \A a \in Everybody : (Pend(a, "start") /\ Op(a).o \in {"wait", "wna"} /\ ~IsProd(X(a)) /\ Run(X(a)) /\ Outstanding(X(a)) > 0)
                             ~> (act[a].st # "pend" \/ ~Run(X(a)))
AckWakes == \A a \in Everybody : (Pend(a, "start") /\ Op(a).o = "wack" /\ Run(X(a)) /\ Acked(X(a), Op(a).a[1]))
                             ~> (act[a].st # "pend" \/ ~Run(X(a)))
=============================================================================
