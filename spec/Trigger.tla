------------------------------- MODULE Trigger -------------------------------
(***************************************************************************)
(* Producers and consumers, at the level of the public API.                *)
(*                                                                         *)
(* A *generation* is what one producer creates under a name: a trigger     *)
(* counter, an acknowledgement counter, their locks and condition          *)
(* variables.  Calls and returns are visible and carry the (virtual) time  *)
(* in milliseconds; in between an operation takes its effect in internal   *)
(* steps, one of which may be that its timeout elapses.  now is a lower    *)
(* bound of the current time, last the time of the last visible event.     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANT Scenarios      \* sequence of [objs, procs, nnames]

VARIABLES sid,
          gens,         \* generations
          cur,          \* name -> its current generation (0: none)
          dirty,        \* name -> a producer crashed and nothing recovered it yet
          obj,          \* object -> [st, g, seen (consumer), before (producer)]
          act,          \* actor -> the operation it is executing
          now, last

vars == <<sid, gens, cur, dirty, obj, act, now, last>>

Slack == 10             \* ms

Spec_(x) == Scenarios[sid].objs[x]
Ours(x) == x # 0 /\ Spec_(x).k \in {"prod", "cons"}
IsProd(x) == Spec_(x).k = "prod"
Name(x) == Spec_(x).nm
Proc(a) == Scenarios[sid].procs[a]
Actors == DOMAIN act
Objs == DOMAIN obj

NoRes == [s |-> "", v |-> <<>>]
Idle == [st |-> "idle", op |-> [o |-> "", x |-> 0, a |-> <<>>], pc |-> "", res |-> NoRes,
         start |-> 0,     \* when it was called
         timed |-> FALSE, \* its timeout elapsed
         cl |-> FALSE,    \* it closes a producer
         mix |-> FALSE]   \* the producer was closed or crashed meanwhile
NoObj == [st |-> "none", g |-> 0, seen |-> 0, before |-> 0]

InitWith(s) ==
    /\ sid = s
    /\ gens = <<>>
    /\ cur = [n \in 1..Scenarios[s].nnames |-> 0]
    /\ dirty = [n \in 1..Scenarios[s].nnames |-> FALSE]
    /\ obj = [x \in 1..Len(Scenarios[s].objs) |-> NoObj]
    /\ act = [a \in 1..Len(Scenarios[s].procs) |-> Idle]
    /\ now = 0 /\ last = 0

Op(a) == act[a].op
X(a) == act[a].op.x
Pend(a, pc) == act[a].st = "pend" /\ act[a].pc = pc
At(a, o) == Pend(a, "start") /\ Op(a).o = o
Finish(a, s, v) == [act EXCEPT ![a].pc = "done", ![a].res = [s |-> s, v |-> v]]
Max(i, j) == IF i > j THEN i ELSE j

----------------------------------------------------------------------------
(* visible events, at time t *)

Tick(t) == now <= t /\ now' = t /\ last' = t

Closing(o) == o \in {"close", "del"}

Call(a, op, t) ==
    /\ act[a].st = "idle"
    /\ LET own == Ours(op.x)
           overlap == own /\ \E b \in Actors : act[b].st = "pend" /\ act[b].cl /\ Name(X(b)) = Name(op.x)
           closes == own /\ IsProd(op.x) /\ (Closing(op.o) \/ op.o = "new") /\ obj[op.x].st # "none"
           new == [Idle EXCEPT !.st = "pend", !.op = op, !.pc = "start", !.start = t, !.cl = closes,
                               !.mix = own /\ (overlap \/ dirty[Name(op.x)])]
       IN act' = [b \in Actors |->
                    IF b = a THEN new
                    ELSE IF closes /\ act[b].st = "pend" /\ Ours(X(b)) /\ Name(X(b)) = Name(op.x)
                    THEN [act[b] EXCEPT !.mix = TRUE] ELSE act[b]]
    /\ Tick(t)
    /\ UNCHANGED <<sid, gens, cur, dirty, obj>>

Matches(r, s, v) ==
    CASE r.s = "any"   -> TRUE
      [] r.s = "okexc" -> s \in {"ok", "exc"}
      [] OTHER         -> r.s = s /\ r.v = v

\* how long the operation may wait (0: as long as it takes)
Limit(op) == IF op.o \in {"wait", "wna"} THEN op.a[1] ELSE IF op.o = "wack" THEN op.a[2] ELSE 0

\* nothing keeps an operation that need not wait any longer
OnTime(a, t) ==
    \/ Limit(Op(a)) <= 0
    \/ act[a].res.s = "any"
    \/ t <= last + Slack + (IF act[a].timed THEN Limit(Op(a)) ELSE 0)

Ret(a, s, v, t) ==
    /\ Pend(a, "done")
    /\ Matches(act[a].res, s, v)
    /\ OnTime(a, t)
    /\ act' = [act EXCEPT ![a] = Idle]
    /\ Tick(t)
    /\ UNCHANGED <<sid, gens, cur, dirty, obj>>

\* time passes (and somebody may have been woken for no reason)
Jump(t) == Tick(t) /\ UNCHANGED <<sid, gens, cur, dirty, obj, act>>

----------------------------------------------------------------------------
(* producers *)

Rival(a, n) == \E b \in Actors \ {a} : act[b].st = "pend" /\ Ours(X(b)) /\ IsProd(X(b)) /\ Name(X(b)) = n
                                       /\ Op(b).o \in {"new", "close", "del"}
Alive(x) == obj[x].st \in {"init", "run"}

\* (creating an object that exists destroys it first)
ClosedBy(x) == [cur EXCEPT ![Name(x)] = IF Alive(x) /\ cur[Name(x)] = obj[x].g THEN 0 ELSE cur[Name(x)]]
Down(x) == IF Alive(x) THEN [gens EXCEPT ![obj[x].g].up = FALSE] ELSE gens

NewProducer(a) ==
    LET x == X(a) n == Name(x) g == Len(gens) + 1 c == ClosedBy(x) IN
    /\ At(a, "new") /\ IsProd(x)
    /\ \/ /\ c[n] = 0 \/ dirty[n] \/ Spec_(x).force
          /\ gens' = Append(Down(x), [nm |-> n, up |-> FALSE, trig |-> 0, ack |-> 0, wild |-> FALSE])
          /\ cur' = [c EXCEPT ![n] = g]
          /\ dirty' = [dirty EXCEPT ![n] = FALSE]
          /\ obj' = [obj EXCEPT ![x] = [NoObj EXCEPT !.st = "init", !.g = g]]
          /\ act' = Finish(a, "ok", <<>>)
       \/ /\ ~Spec_(x).force
          /\ c[n] # 0 \/ dirty[n] \/ Rival(a, n)
          /\ gens' = Down(x) /\ cur' = c
          /\ obj' = [obj EXCEPT ![x] = NoObj]
          /\ act' = Finish(a, "exc", <<>>)
          /\ UNCHANGED dirty
    /\ UNCHANGED sid

RunProducer(a) ==
    LET x == X(a) g == obj[x].g IN
    /\ At(a, "run") /\ IsProd(x)
    /\ IF obj[x].st = "init"
       THEN /\ gens' = [gens EXCEPT ![g].up = TRUE]
            /\ obj' = [obj EXCEPT ![x].st = "run", ![x].before = 0]
            /\ act' = Finish(a, "ok", <<>>)
       ELSE /\ UNCHANGED <<gens, obj>>
            /\ act' = Finish(a, CASE obj[x].st = "run" -> "ok" [] obj[x].st = "closed" -> "exc" [] OTHER -> "none", <<>>)
    /\ UNCHANGED <<sid, cur, dirty>>

CloseProducer(a) ==
    LET x == X(a) IN
    /\ Pend(a, "start") /\ Closing(Op(a).o) /\ IsProd(x)
    /\ gens' = Down(x) /\ cur' = ClosedBy(x)
    /\ act' = Finish(a, IF obj[x].st = "none" THEN "none" ELSE "ok", <<>>)
    /\ obj' = IF obj[x].st = "none" THEN obj
              ELSE [obj EXCEPT ![x] = [NoObj EXCEPT !.st = IF Op(a).o = "del" THEN "none" ELSE "closed"]]
    /\ UNCHANGED <<sid, dirty>>

\* an operation of an object that does not run
Premature(a) ==
    /\ Pend(a, "start") /\ Op(a).o \in {"trig", "wack", "wait", "ack", "wna"}
    /\ obj[X(a)].st \notin {"run", "mixed", "dead"}
    /\ act' = Finish(a, IF obj[X(a)].st = "none" THEN "none" ELSE "exc",
                     IF Op(a).o = "wna" /\ obj[X(a)].st # "none" THEN <<0>> ELSE <<>>)
    /\ UNCHANGED <<sid, gens, cur, dirty, obj>>

DoTrigger(a) ==
    LET x == X(a) IN
    /\ At(a, "trig") /\ obj[x].st = "run"
    /\ gens' = [gens EXCEPT ![obj[x].g].trig = @ + 1]
    /\ act' = Finish(a, "ok", <<>>)
    /\ UNCHANGED <<sid, cur, dirty, obj>>

Acked(x, n) == gens[obj[x].g].ack - obj[x].before >= n

AwaitAcks(a) ==
    LET x == X(a) n == Op(a).a[1] IN
    /\ At(a, "wack") /\ obj[x].st = "run"
    /\ Acked(x, n)
    /\ obj' = [obj EXCEPT ![x].before = gens[obj[x].g].ack]
    /\ act' = Finish(a, "t", <<>>)
    /\ UNCHANGED <<sid, gens, cur, dirty>>

----------------------------------------------------------------------------
(* consumers *)

NewConsumer(a) ==
    /\ At(a, "new") /\ ~IsProd(X(a))
    /\ obj' = [obj EXCEPT ![X(a)] = [NoObj EXCEPT !.st = "idle"]]
    /\ act' = Finish(a, "ok", <<>>)
    /\ UNCHANGED <<sid, gens, cur, dirty>>

\* returns once a producer is running; counts that producer's triggers from its start
RunConsumer(a) ==
    LET x == X(a) g == cur[Name(x)] IN
    /\ At(a, "run") /\ ~IsProd(x)
    /\ CASE obj[x].st \in {"none", "run"} ->
              act' = Finish(a, IF obj[x].st = "none" THEN "none" ELSE "ok", <<>>) /\ UNCHANGED obj
         [] OTHER ->
              \/ /\ g # 0 /\ gens[g].up
                 /\ obj' = [obj EXCEPT ![x].st = "run", ![x].g = g, ![x].seen = 0]
                 /\ act' = Finish(a, "ok", <<>>)
              \* ... but a producer may vanish while a consumer starts
              \/ /\ act[a].mix
                 /\ \/ /\ obj' = [obj EXCEPT ![x].st = "mixed"]
                       /\ act' = Finish(a, "ok", <<>>)
                    \/ /\ obj' = [obj EXCEPT ![x].st = "failed"]
                       /\ act' = Finish(a, "exc", <<>>)
    /\ UNCHANGED <<sid, gens, cur, dirty>>

CloseConsumer(a) ==
    LET x == X(a) IN
    /\ Pend(a, "start") /\ Closing(Op(a).o) /\ ~IsProd(x)
    /\ act' = Finish(a, IF obj[x].st = "none" THEN "none" ELSE "ok", <<>>)
    /\ obj' = CASE obj[x].st = "none" -> obj
                [] Op(a).o = "del" -> [obj EXCEPT ![x] = NoObj]
                [] obj[x].st = "failed" -> obj
                [] OTHER -> [obj EXCEPT ![x] = [NoObj EXCEPT !.st = "idle"]]
    /\ UNCHANGED <<sid, gens, cur, dirty>>

Outstanding(x) == gens[obj[x].g].trig - obj[x].seen
ExcRes(a) == IF Op(a).o = "wna" THEN <<0>> ELSE <<>>

Receive(a) ==
    LET x == X(a) IN
    /\ Pend(a, "start") /\ Op(a).o \in {"wait", "wna"} /\ obj[x].st = "run"
    /\ \/ /\ Outstanding(x) = 1
          /\ obj' = [obj EXCEPT ![x].seen = @ + 1]
          /\ act' = IF Op(a).o = "wait" THEN Finish(a, "t", <<>>) ELSE [act EXCEPT ![a].pc = "ack"]
       \/ /\ Outstanding(x) > 1
          /\ act' = Finish(a, "exc", ExcRes(a))
          /\ UNCHANGED obj
    /\ UNCHANGED <<sid, gens, cur, dirty>>

Acknowledge(a) ==
    LET x == X(a) IN
    /\ obj[x].st = "run"
    /\ \/ At(a, "ack") /\ act' = Finish(a, "t", <<>>)
       \/ Pend(a, "ack") /\ act' = Finish(a, IF Op(a).a[2] # 0 THEN "t" ELSE "f", <<1>>)
    /\ gens' = [gens EXCEPT ![obj[x].g].ack = @ + 1]
    /\ UNCHANGED <<sid, cur, dirty, obj>>

\* a timeout elapses without the event
Timeout(a) ==
    LET x == X(a) op == Op(a) t == act[a].start + Limit(op) IN
    /\ Pend(a, "start") /\ op.o \in {"wait", "wna", "wack"} /\ obj[x].st = "run"
    /\ Limit(op) > 0
    /\ IF op.o = "wack" THEN ~Acked(x, op.a[1]) ELSE Outstanding(x) = 0
    /\ act' = [Finish(a, "f", ExcRes(a)) EXCEPT ![a].timed = TRUE]
    /\ now' = Max(now, t)
    /\ UNCHANGED <<sid, gens, cur, dirty, obj, last>>

----------------------------------------------------------------------------
(* crashes and what is left by them *)

Crash(p, t) ==
    LET dead == {a \in Actors : Proc(a) = p}
        lost == {x \in Objs : Spec_(x).proc = p}
        busy == {a \in dead : act[a].st = "pend" /\ Ours(X(a))}
        wild == {obj[X(a)].g : a \in busy} \cup {cur[Name(X(a))] : a \in {b \in busy : ~IsProd(X(b)) /\ Op(b).o = "run"}}
        names == {Name(x) : x \in {y \in lost : Ours(y) /\ IsProd(y) /\ Alive(y)}}
                 \cup {Name(X(a)) : a \in {b \in busy : IsProd(X(b))}}
        nd == [n \in DOMAIN dirty |-> dirty[n] \/ n \in names]
    IN
    /\ dirty' = nd
    /\ gens' = [g \in DOMAIN gens |-> IF g \in wild THEN [gens[g] EXCEPT !.wild = TRUE] ELSE gens[g]]
    /\ obj' = [x \in Objs |-> IF x \in lost THEN [NoObj EXCEPT !.st = "dead"] ELSE obj[x]]
    /\ act' = [a \in Actors |-> IF a \in dead THEN [Idle EXCEPT !.st = "dead"]
                                ELSE IF act[a].st = "pend" /\ Ours(X(a)) /\ nd[Name(X(a))] THEN [act[a] EXCEPT !.mix = TRUE]
                                ELSE act[a]]
    /\ Tick(t)
    /\ UNCHANGED <<sid, cur>>

\* on a generation somebody crashed in the middle of (and on one that was
\* taken apart while the consumer started) anything can happen
Lost(x) == obj[x].st = "mixed" \/ (obj[x].st = "run" /\ gens[obj[x].g].wild)

WildStep(a) ==
    LET x == X(a) IN
    /\ Pend(a, "start") \/ Pend(a, "ack")
    /\ ~(IsProd(x) /\ Op(a).o \in {"new", "close", "del", "run"}) /\ Op(a).o # "new"
    /\ Lost(x)
    /\ act' = Finish(a, "any", <<>>)
    /\ obj' = IF Op(a).o = "del" THEN [obj EXCEPT ![x] = NoObj] ELSE [obj EXCEPT ![x].st = IF @ = "run" /\ ~IsProd(x) THEN "mixed" ELSE @]
    /\ \/ UNCHANGED gens
       \/ /\ Op(a).o \in {"ack", "wna"}
          /\ \E g \in DOMAIN gens : gens[g].nm = Name(x) /\ gens' = [gens EXCEPT ![g].ack = @ + 1]
    /\ UNCHANGED <<sid, cur, dirty>>

----------------------------------------------------------------------------

Quiet(n, a) == ~\E b \in Actors \ {a} : act[b].st = "pend" /\ Ours(X(b)) /\ Name(X(b)) = n

Other(a) ==
    LET op == Op(a) x == op.x IN
    /\ Pend(a, "start")
    /\ \/ x # 0 /\ ~Ours(x) /\ act' = Finish(a, "any", <<>>)
       \/ x = 0 /\ act' =
            CASE op.o = "fds" ->
                   IF /\ \A y \in Objs : Spec_(y).proc = Proc(a) => (Ours(y) /\ obj[y].st \in {"none", "closed", "idle"})
                      /\ ~\E b \in Actors \ {a} : Proc(b) = Proc(a) /\ act[b].st = "pend"
                   THEN Finish(a, "ok", <<0>>) ELSE Finish(a, "any", <<>>)
              [] op.o = "names" ->
                   IF /\ cur[op.a[1]] = 0 /\ ~dirty[op.a[1]] /\ Quiet(op.a[1], a)
                      /\ \A y \in Objs : Name(y) = op.a[1] => Ours(y)
                   THEN Finish(a, "ok", <<0>>) ELSE Finish(a, "any", <<>>)
              [] OTHER -> Finish(a, "any", <<>>)
    /\ UNCHANGED <<sid, gens, cur, dirty, obj>>

Silent(a) ==
    /\ act[a].st = "pend" /\ act[a].pc # "done"
    /\ \/ /\ Ours(X(a))
          /\ \/ /\ \/ NewProducer(a) \/ RunProducer(a) \/ CloseProducer(a) \/ Premature(a)
                   \/ DoTrigger(a) \/ AwaitAcks(a) \/ NewConsumer(a) \/ RunConsumer(a)
                   \/ CloseConsumer(a) \/ Receive(a) \/ Acknowledge(a) \/ WildStep(a)
                /\ UNCHANGED <<now, last>>
             \/ Timeout(a)
       \/ Other(a) /\ UNCHANGED <<now, last>>

\* an actor that cannot make progress, unless somebody else does something
Blocked(a) ==
    LET x == X(a) IN
    \/ act[a].st \in {"idle", "dead"}
    \/ /\ act[a].st = "pend" /\ ~Ours(x)
    \/ /\ act[a].st = "pend" /\ Ours(x)
       /\ \/ act[a].pc = "done" /\ act[a].res.s = "any"
          \/ Lost(x)
          \/ /\ At(a, "run") /\ ~IsProd(x)
             /\ LET g == cur[Name(x)] IN IF g = 0 THEN TRUE ELSE ~gens[g].up \/ act[a].mix
          \/ /\ Pend(a, "start") /\ Op(a).o \in {"wait", "wna"} /\ Limit(Op(a)) <= 0
             /\ obj[x].st = "run" /\ Outstanding(x) = 0
          \/ /\ At(a, "wack") /\ Limit(Op(a)) <= 0
             /\ obj[x].st = "run" /\ ~Acked(x, Op(a).a[1])

Stuck(S) == /\ \A a \in S : Blocked(a)
            /\ UNCHANGED vars

=============================================================================
