------------------------------- MODULE CondVar -------------------------------
(***************************************************************************)
(* Shared condition variables, at the level of the public API: a lock that *)
(* objects in different processes hold, actors that wait, notifications,   *)
(* timeouts, predicates (over flags that the actors set under the lock).   *)
(* Time: as in Trigger.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANT Scenarios

VARIABLES sid,
          gens,         \* [nm, owner: holder of the lock (0: nobody), waiting: actors, wild]
          cur, dirty,
          obj,          \* object -> [st, g, cl]
          flags,        \* what the predicates are about
          act, now, last

vars == <<sid, gens, cur, dirty, obj, flags, act, now, last>>

Slack == 10

Spec_(x) == Scenarios[sid].objs[x]
Ours(x) == x # 0 /\ Spec_(x).k \in {"cvs", "cvc"}
IsSrv(x) == Spec_(x).k = "cvs"
Name(x) == Spec_(x).nm
Proc(a) == Scenarios[sid].procs[a]
Actors == DOMAIN act
Objs == DOMAIN obj

NoRes == [s |-> "", v |-> <<>>]
Idle == [st |-> "idle", op |-> [o |-> "", x |-> 0, a |-> <<>>], pc |-> "", res |-> NoRes,
         start |-> 0, timed |-> FALSE, cl |-> FALSE, mix |-> FALSE]
NoObj == [st |-> "none", g |-> 0, cl |-> FALSE]

InitWith(s) ==
    /\ sid = s
    /\ gens = <<>>
    /\ cur = [n \in 1..Scenarios[s].nnames |-> 0]
    /\ dirty = [n \in 1..Scenarios[s].nnames |-> FALSE]
    /\ obj = [x \in 1..Len(Scenarios[s].objs) |-> NoObj]
    /\ flags = [k \in 0..15 |-> 0]
    /\ act = [a \in 1..Len(Scenarios[s].procs) |-> Idle]
    /\ now = 0 /\ last = 0

Op(a) == act[a].op
X(a) == act[a].op.x
G(a) == obj[X(a)].g
Pend(a, pc) == act[a].st = "pend" /\ act[a].pc = pc
At(a, o) == Pend(a, "start") /\ Op(a).o = o
Finish(a, s, v) == [act EXCEPT ![a].pc = "done", ![a].res = [s |-> s, v |-> v]]
Go(a, pc) == [act EXCEPT ![a].pc = pc]
Max(i, j) == IF i > j THEN i ELSE j

----------------------------------------------------------------------------
Tick(t) == now <= t /\ now' = t /\ last' = t

Call(a, op, t) ==
    /\ act[a].st = "idle"
    /\ LET own == Ours(op.x)
           overlap == own /\ \E b \in Actors : act[b].st = "pend" /\ act[b].cl /\ Name(X(b)) = Name(op.x)
           closes == own /\ IsSrv(op.x) /\ op.o \in {"close", "del", "new"} /\ obj[op.x].st # "none"
           new == [Idle EXCEPT !.st = "pend", !.op = op, !.pc = "start", !.start = t, !.cl = closes,
                               !.mix = own /\ (overlap \/ dirty[Name(op.x)])]
       IN act' = [b \in Actors |->
                    IF b = a THEN new
                    ELSE IF closes /\ act[b].st = "pend" /\ Ours(X(b)) /\ Name(X(b)) = Name(op.x)
                    THEN [act[b] EXCEPT !.mix = TRUE] ELSE act[b]]
    /\ Tick(t)
    /\ UNCHANGED <<sid, gens, cur, dirty, obj, flags>>

Matches(r, s, v) == IF r.s = "any" THEN TRUE ELSE r.s = s /\ r.v = v
Limit(op) == IF op.o \in {"twait", "twaitp"} THEN op.a[1] ELSE 0
OnTime(a, t) ==
    \/ Op(a).o \notin {"twait", "twaitp"}
    \/ act[a].res.s = "any"
    \/ t <= last + Slack + (IF act[a].timed THEN Limit(Op(a)) ELSE 0)

Ret(a, s, v, t) ==
    /\ Pend(a, "done")
    /\ Matches(act[a].res, s, v)
    /\ OnTime(a, t)
    /\ act' = [act EXCEPT ![a] = Idle]
    /\ Tick(t)
    /\ UNCHANGED <<sid, gens, cur, dirty, obj, flags>>

Jump(t) == Tick(t) /\ UNCHANGED <<sid, gens, cur, dirty, obj, flags, act>>

----------------------------------------------------------------------------
(* creating, opening, closing *)

Open(x) == obj[x].st = "open"
Owns(x) == Open(x) /\ IsSrv(x) /\ ~obj[x].cl
ClosedBy(x) == IF Owns(x) /\ cur[Name(x)] = obj[x].g THEN [cur EXCEPT ![Name(x)] = 0] ELSE cur
\* an object lets go of the lock when it goes
Dropped(x) == IF Open(x) /\ gens[obj[x].g].owner \in {x, 100 + x} THEN [gens EXCEPT ![obj[x].g].owner = 0] ELSE gens

Rival(a, n) == \E b \in Actors \ {a} : act[b].st = "pend" /\ Ours(X(b)) /\ IsSrv(X(b)) /\ Name(X(b)) = n
                                       /\ Op(b).o \in {"new", "close", "del"}

\* the object that was there before goes first
Renew(a) ==
    LET x == X(a) IN
    /\ At(a, "new") /\ obj[x].st # "none"
    /\ cur' = ClosedBy(x) /\ gens' = Dropped(x)
    /\ obj' = [obj EXCEPT ![x] = NoObj]
    /\ UNCHANGED <<sid, dirty, flags, act>>

New(a) ==
    LET x == X(a) n == Name(x) IN
    /\ At(a, "new") /\ obj[x].st = "none"
    /\ \/ /\ IsSrv(x) /\ (cur[n] = 0 \/ Spec_(x).force)
          /\ gens' = Append(gens, [nm |-> n, owner |-> 0, waiting |-> {}, wild |-> FALSE])
          /\ cur' = [cur EXCEPT ![n] = Len(gens) + 1]
          /\ dirty' = [dirty EXCEPT ![n] = FALSE]
          /\ obj' = [obj EXCEPT ![x] = [st |-> "open", g |-> Len(gens) + 1, cl |-> FALSE]]
          /\ act' = Finish(a, "ok", <<>>)
       \/ /\ ~IsSrv(x) /\ cur[n] # 0
          /\ gens' = gens
          /\ obj' = [obj EXCEPT ![x] = [st |-> "open", g |-> cur[n], cl |-> FALSE]]
          /\ act' = Finish(a, "ok", <<>>)
          /\ UNCHANGED <<cur, dirty>>
       \/ /\ IF IsSrv(x) THEN ~Spec_(x).force /\ (cur[n] # 0 \/ dirty[n] \/ Rival(a, n)) ELSE cur[n] = 0 \/ act[a].mix \/ dirty[n]
          /\ gens' = gens /\ cur' = cur
          /\ obj' = [obj EXCEPT ![x] = NoObj]
          /\ act' = Finish(a, "exc", <<>>)
          /\ UNCHANGED dirty
       \* (a server may be replaced while a client opens its two halves)
       \/ /\ ~IsSrv(x) /\ act[a].mix
          /\ gens' = gens
          /\ obj' = [obj EXCEPT ![x] = [NoObj EXCEPT !.st = "mixed"]]
          /\ act' = Finish(a, "ok", <<>>)
          /\ UNCHANGED <<cur, dirty>>
    /\ UNCHANGED <<sid, flags>>

Close(a) ==
    LET x == X(a) IN
    /\ Pend(a, "start") /\ Op(a).o \in {"close", "del"}
    /\ IF obj[x].st = "none" THEN act' = Finish(a, "none", <<>>) /\ UNCHANGED <<obj, cur, gens>>
       ELSE /\ act' = Finish(a, "ok", <<>>)
            /\ cur' = ClosedBy(x)
            /\ gens' = IF Op(a).o = "del" THEN Dropped(x) ELSE gens
            /\ obj' = IF Op(a).o = "del" THEN [obj EXCEPT ![x] = NoObj] ELSE [obj EXCEPT ![x].cl = TRUE]
    /\ UNCHANGED <<sid, dirty, flags>>

Absent(a) ==
    /\ Pend(a, "start") /\ Op(a).o \notin {"new", "close", "del"} /\ obj[X(a)].st = "none"
    /\ act' = Finish(a, "none", <<>>)
    /\ UNCHANGED <<sid, gens, cur, dirty, obj, flags>>

----------------------------------------------------------------------------
(* locking *)

\* a second handle on the lock alone: m...
Holder(a) == IF Op(a).o \in {"mlock", "munlock"} THEN 100 + X(a) ELSE X(a)
Held(a) == gens[G(a)].owner = Holder(a)

Lock(a) ==
    /\ Pend(a, "start") /\ Op(a).o \in {"lock", "mlock"} /\ Open(X(a))
    /\ gens[G(a)].owner = 0
    /\ gens' = [gens EXCEPT ![G(a)].owner = Holder(a)]
    /\ act' = Finish(a, "ok", <<>>)
    /\ UNCHANGED <<sid, cur, dirty, obj, flags>>

Unlock(a) ==
    /\ Pend(a, "start") /\ Op(a).o \in {"unlock", "munlock"} /\ Open(X(a))
    /\ IF Held(a)
       THEN gens' = [gens EXCEPT ![G(a)].owner = 0] /\ act' = Finish(a, "ok", <<>>)
       ELSE gens' = gens /\ act' = Finish(a, IF Len(Op(a).a) > 0 /\ Op(a).a[1] # 0 THEN "exc" ELSE "ok", <<>>)
    /\ UNCHANGED <<sid, cur, dirty, obj, flags>>

----------------------------------------------------------------------------
(* waiting *)

Waits == {"wait", "twait", "waitp", "twaitp"}
Predicated(a) == Op(a).o \in {"waitp", "twaitp"}
Pred(a) == LET p == Op(a).a IN IF Op(a).o = "waitp" THEN flags[p[1]] = p[2] ELSE flags[p[2]] = p[3]
\* the answer of a wait that is over because what it waits for is there
Reached(a) == CASE Op(a).o = "wait" -> [s |-> "ok", v |-> <<>>]
                [] Op(a).o = "twait" -> [s |-> "t", v |-> <<>>]
                [] Op(a).o = "waitp" -> [s |-> "ok", v |-> <<Op(a).a[2]>>]
                [] OTHER -> [s |-> "t", v |-> <<>>]

\* holding the lock: looks at the predicate, or lets go of the lock and waits
Begin(a) ==
    /\ Pend(a, "start") /\ Op(a).o \in Waits /\ Open(X(a))
    /\ IF ~Held(a)
       THEN /\ act' = Finish(a, "exc", <<>>) /\ UNCHANGED gens
       ELSE IF Predicated(a) /\ Pred(a)
       THEN /\ act' = Finish(a, Reached(a).s, Reached(a).v) /\ UNCHANGED gens
       ELSE /\ act' = Go(a, "wait")
            /\ gens' = [gens EXCEPT ![G(a)].owner = 0, ![G(a)].waiting = @ \cup {a}]
    /\ UNCHANGED <<sid, cur, dirty, obj, flags>>

\* notified: takes the lock again
Relock(a) ==
    /\ Pend(a, "wait") /\ a \notin gens[G(a)].waiting
    /\ gens[G(a)].owner = 0
    /\ IF Predicated(a) /\ ~act[a].timed /\ ~Pred(a)
       THEN /\ act' = act \* waits again
            /\ gens' = [gens EXCEPT ![G(a)].waiting = @ \cup {a}]
       ELSE /\ gens' = [gens EXCEPT ![G(a)].owner = X(a)]
            /\ act' = IF act[a].timed
                      THEN Finish(a, IF Predicated(a) /\ Pred(a) THEN "t" ELSE "f", <<>>)
                      ELSE Finish(a, Reached(a).s, Reached(a).v)
    /\ UNCHANGED <<sid, cur, dirty, obj, flags>>

Timeout(a) ==
    /\ Pend(a, "wait") /\ Op(a).o \in {"twait", "twaitp"} /\ a \in gens[G(a)].waiting
    /\ gens' = [gens EXCEPT ![G(a)].waiting = @ \ {a}]
    /\ act' = [act EXCEPT ![a].timed = TRUE]
    /\ now' = Max(now, act[a].start + Limit(Op(a)))
    /\ UNCHANGED <<sid, cur, dirty, obj, flags, last>>

\* those who wait for a predicate may wake up for no reason, and will not show it
Spurious(a) ==
    /\ Pend(a, "wait") /\ Predicated(a) /\ a \in gens[G(a)].waiting
    /\ gens' = [gens EXCEPT ![G(a)].waiting = @ \ {a}]
    /\ UNCHANGED <<sid, cur, dirty, obj, flags, act>>

Notify(a) ==
    LET W == gens[G(a)].waiting IN
    /\ Pend(a, "start") /\ Op(a).o \in {"n1", "na"} /\ Open(X(a))
    /\ \/ W = {} /\ gens' = gens
       \/ Op(a).o = "na" /\ gens' = [gens EXCEPT ![G(a)].waiting = {}]
       \/ Op(a).o = "n1" /\ \E w \in W : gens' = [gens EXCEPT ![G(a)].waiting = W \ {w}]
    /\ act' = Finish(a, "ok", <<>>)
    /\ UNCHANGED <<sid, cur, dirty, obj, flags>>

Flag(a) ==
    /\ Pend(a, "start") /\ Op(a).o \in {"set", "get"} /\ obj[X(a)].st # "none"
    /\ flags' = IF Op(a).o = "set" THEN [flags EXCEPT ![Op(a).a[1]] = Op(a).a[2]] ELSE flags
    /\ act' = Finish(a, "ok", IF Op(a).o = "get" THEN <<flags[Op(a).a[1]]>> ELSE <<>>)
    /\ UNCHANGED <<sid, gens, cur, dirty, obj>>

----------------------------------------------------------------------------
(* crashes: whoever dies with the lock or in the middle of something leaves  *)
(* a condition variable that may never work again, until a new one is forced *)

Crash(p, t) ==
    LET dead == {a \in Actors : Proc(a) = p}
        lost == {x \in Objs : Spec_(x).proc = p}
        busy == {a \in dead : act[a].st = "pend" /\ Ours(X(a))}
        wild == {obj[X(a)].g : a \in busy} \cup {cur[Name(X(a))] : a \in busy}
                \cup {obj[x].g : x \in {y \in lost : Open(y) /\ gens[obj[y].g].owner \in {y, 100 + y}}}
        names == {Name(x) : x \in {y \in lost : Ours(y) /\ Owns(y)}} \cup {Name(X(a)) : a \in {b \in busy : IsSrv(X(b))}}
        nd == [n \in DOMAIN dirty |-> dirty[n] \/ n \in names]
    IN
    /\ dirty' = nd
    /\ gens' = [g \in DOMAIN gens |-> IF g \in wild THEN [gens[g] EXCEPT !.wild = TRUE] ELSE gens[g]]
    /\ obj' = [x \in Objs |-> IF x \in lost THEN [NoObj EXCEPT !.st = "dead"] ELSE obj[x]]
    /\ act' = [a \in Actors |-> IF a \in dead THEN [Idle EXCEPT !.st = "dead"]
                                ELSE IF act[a].st = "pend" /\ Ours(X(a)) /\ nd[Name(X(a))] THEN [act[a] EXCEPT !.mix = TRUE]
                                ELSE act[a]]
    /\ Tick(t)
    /\ UNCHANGED <<sid, cur, flags>>

Lost(x) == obj[x].st = "mixed" \/ (Open(x) /\ gens[obj[x].g].wild)

WildStep(a) ==
    LET x == X(a) IN
    /\ Pend(a, "start") \/ Pend(a, "wait")
    /\ Op(a).o \notin {"new", "close"}
    /\ Lost(x)
    /\ act' = Finish(a, "any", <<>>)
    /\ obj' = IF Op(a).o = "del" THEN [obj EXCEPT ![x] = NoObj] ELSE obj
    /\ cur' = IF Op(a).o = "del" THEN ClosedBy(x) ELSE cur
    /\ flags' = IF Op(a).o = "set" THEN [flags EXCEPT ![Op(a).a[1]] = Op(a).a[2]] ELSE flags
    /\ UNCHANGED <<sid, gens, dirty>>

----------------------------------------------------------------------------
Quiet(n, a) == ~\E b \in Actors \ {a} : act[b].st = "pend" /\ Ours(X(b)) /\ Name(X(b)) = n

Other(a) ==
    LET op == Op(a) x == op.x IN
    /\ Pend(a, "start")
    /\ \/ x # 0 /\ ~Ours(x) /\ act' = Finish(a, "any", <<>>)
       \/ x = 0 /\ act' =
            CASE op.o = "names" ->
                   IF /\ cur[op.a[1]] = 0 /\ ~dirty[op.a[1]] /\ Quiet(op.a[1], a)
                      /\ \A y \in Objs : Name(y) = op.a[1] => Ours(y)
                   THEN Finish(a, "ok", <<0>>) ELSE Finish(a, "any", <<>>)
              [] OTHER -> Finish(a, "any", <<>>)
    /\ UNCHANGED <<sid, gens, cur, dirty, obj, flags>>

Silent(a) ==
    /\ act[a].st = "pend" /\ act[a].pc # "done"
    /\ \/ /\ Ours(X(a))
          /\ \/ /\ \/ Renew(a) \/ New(a) \/ Close(a) \/ Absent(a) \/ Lock(a) \/ Unlock(a) \/ Begin(a)
                   \/ Relock(a) \/ Spurious(a) \/ Notify(a) \/ Flag(a) \/ WildStep(a)
                /\ UNCHANGED <<now, last>>
             \/ Timeout(a)
       \/ Other(a) /\ UNCHANGED <<now, last>>

Blocked(a) ==
    LET x == X(a) IN
    IF act[a].st \in {"idle", "dead"} THEN TRUE
    ELSE IF ~Ours(x) THEN TRUE
    ELSE IF act[a].pc = "done" THEN act[a].res.s = "any"
    ELSE IF Lost(x) THEN TRUE
    ELSE IF act[a].mix /\ Op(a).o = "new" THEN TRUE
    ELSE IF ~Open(x) THEN FALSE
    ELSE \/ Op(a).o \in {"lock", "mlock"} /\ gens[G(a)].owner # 0
         \/ Pend(a, "wait") /\ a \in gens[G(a)].waiting /\ Op(a).o \in {"wait", "waitp"}
         \/ Pend(a, "wait") /\ a \notin gens[G(a)].waiting /\ gens[G(a)].owner # 0

Stuck(S) == /\ \A a \in S : Blocked(a)
            /\ UNCHANGED vars

=============================================================================
