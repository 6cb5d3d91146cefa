------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* What EigenIPC's shared tensors do, at the level of the public API.      *)
(*                                                                         *)
(* A *generation* is one incarnation of a tensor: the memory, the client   *)
(* counter, the data semaphore and the running flag a server creates.  A   *)
(* name refers to at most one current generation.  Servers and clients are *)
(* objects living in processes; actors (threads of control) call their     *)
(* operations.  A call and its return are visible; in between an operation *)
(* takes a few internal steps - its linearisation points: taking the data  *)
(* semaphore, acting on the tensor, giving the semaphore back - which      *)
(* interleave with those of the other actors.                              *)
(*                                                                         *)
(* The same actions are used twice: with an environment that calls         *)
(* anything at any time for exhaustive checking (MCTensor) and driven by   *)
(* the calls and returns recorded from the implementation (TensorTrace).   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANT Scenarios      \* sequence of [objs, procs, nnames]: what exists

VARIABLES sid,          \* the scenario of this behaviour
          gens,         \* the generations, in order of creation
          cur,          \* name -> its current generation (0: none)
          dirty,        \* name -> a server crashed and nothing recovered it yet
          obj,          \* object -> [st, g, lg]
          act           \* actor -> the operation it is executing

vars == <<sid, gens, cur, dirty, obj, act>>

SC == Scenarios[sid]
Spec_(x) == SC.objs[x]
IsSrv(x) == Spec_(x).k \in {"srv", "sts", "vws", "dcs"}
Name(x) == Spec_(x).nm
Proc(a) == SC.procs[a]
Actors == DOMAIN act
Objs == DOMAIN obj

NoRes == [s |-> "", v |-> <<>>]
Idle == [st |-> "idle", op |-> [o |-> "", x |-> 0, a |-> <<>>], pc |-> "", g |-> 0,
         lo |-> 0, res |-> NoRes, intr |-> FALSE, inj |-> FALSE, exc |-> FALSE]
NoObj == [st |-> "none", g |-> 0, lg |-> {}, h |-> 0]   \* h: manual acquisitions not released yet

InitWith(s) ==
    /\ sid = s
    /\ gens = <<>>
    /\ cur = [n \in 1..Scenarios[s].nnames |-> 0]
    /\ dirty = [n \in 1..Scenarios[s].nnames |-> FALSE]
    /\ obj = [x \in 1..Len(Scenarios[s].objs) |-> NoObj]
    /\ act = [a \in 1..Len(Scenarios[s].procs) |-> Idle]

----------------------------------------------------------------------------
(* helpers *)

Op(a) == act[a].op
X(a) == act[a].op.x
O(a) == obj[X(a)]
Pend(a, pc) == act[a].st = "pend" /\ act[a].pc = pc
NextLo(n) == IF cur[n] # 0 THEN cur[n] ELSE Len(gens) + 1

Finish(a, s, v) == [act EXCEPT ![a].pc = "done", ![a].res = [s |-> s, v |-> v]]
Go(a, pc) == [act EXCEPT ![a].pc = pc]

\* enc: the value an element of the type holds after v was written
Enc(dt, v) == IF dt = 3 THEN v % 2 ELSE v

Fits(g, row, col, n, m) ==
    /\ row >= 0 /\ row < gens[g].rows /\ col >= 0 /\ col < gens[g].cols
    /\ row + n <= gens[g].rows /\ col + m <= gens[g].cols

\* the data is kept row by row
At(g, i, j) == i * gens[g].cols + j + 1
Written(g, op) ==
    LET r == op.a[1] c == op.a[2] n == op.a[3] m == op.a[4] v == op.a[5] st == op.a[6] IN
    [k \in DOMAIN gens[g].data |->
        LET i == (k - 1) \div gens[g].cols
            j == (k - 1) % gens[g].cols IN
        IF i >= r /\ i < r + n /\ j >= c /\ j < c + m
        THEN Enc(gens[g].dt, v + st * ((i - r) * m + (j - c)))
        ELSE gens[g].data[k]]
ReadBlock(g, op) ==
    LET r == op.a[1] c == op.a[2] n == op.a[3] m == op.a[4] IN
    [k \in 1..(n * m) |-> gens[g].data[At(g, r + ((k - 1) \div m), c + ((k - 1) % m))]]

Running(g) == g # 0 /\ gens[g].run /\ cur[gens[g].nm] = g
SrvOpen(x) == obj[x].st \in {"init", "run", "stop"}

\* operations of other actors that may make creating a server fail
Conflict(a, n) ==
    \/ cur[n] # 0
    \/ \E b \in Actors \ {a} : /\ act[b].st = "pend"
                               /\ act[b].op.x # 0
                               /\ IsSrv(act[b].op.x) /\ Name(act[b].op.x) = n
                               /\ act[b].op.o \in {"new", "close", "del"}

Same(v) == UNCHANGED v

----------------------------------------------------------------------------
(* calls *)

StartPc(a, op) ==
    IF op.o = "attach" /\ op.x # 0 /\ ~IsSrv(op.x)
    THEN (IF obj[op.x].st = "att" THEN "adetach" ELSE "wait")
    ELSE "start"

Call(a, op) ==
    /\ act[a].st = "idle"
    /\ act' = [act EXCEPT ![a] =
                 [Idle EXCEPT !.st = "pend", !.op = op, !.pc = StartPc(a, op),
                              !.lo = IF op.o = "attach" /\ op.x # 0 THEN NextLo(Name(op.x)) ELSE 0,
                              !.exc = op.o = "attach" /\ op.x # 0 /\ dirty[Name(op.x)]]]
    \* (a closed client can be attached again)
    /\ obj' = IF op.o = "attach" /\ op.x # 0 /\ obj[op.x].st = "closed" /\ ~IsSrv(op.x)
              THEN [obj EXCEPT ![op.x].st = "det"] ELSE obj
    /\ UNCHANGED <<sid, gens, cur, dirty>>

Matches(r, s, v) ==
    CASE r.s = "any"   -> TRUE
      [] r.s = "okexc" -> s \in {"ok", "exc"}
      [] OTHER         -> r.s = s /\ r.v = v

Ret(a, s, v) ==
    /\ Pend(a, "done")
    /\ Matches(act[a].res, s, v)
    /\ act' = [act EXCEPT ![a] = Idle]
    /\ UNCHANGED <<sid, gens, cur, dirty, obj>>

----------------------------------------------------------------------------
(* servers *)

NewServer(a) ==
    LET x == X(a) n == Name(x) sp == Spec_(x) g == Len(gens) + 1 IN
    /\ Pend(a, "start") /\ Op(a).o = "new" /\ IsSrv(x) /\ obj[x].st = "none"
    /\ \/ /\ cur[n] = 0 \/ dirty[n] \/ sp.force
          /\ ~act[a].inj
          /\ gens' = Append(gens, [nm |-> n, rows |-> sp.rows, cols |-> sp.cols, dt |-> sp.dt, lay |-> sp.lay,
                                   data |-> [k \in 1..(sp.rows * sp.cols) |-> 0],
                                   cnt |-> 0, sem |-> 0, run |-> FALSE, never |-> TRUE, wild |-> FALSE])
          /\ cur' = [cur EXCEPT ![n] = g]
          /\ dirty' = [dirty EXCEPT ![n] = FALSE]
          /\ obj' = [obj EXCEPT ![x] = [NoObj EXCEPT !.st = "init", !.g = g]]
          /\ act' = Finish(a, "ok", <<>>)
       \/ /\ Conflict(a, n) \/ dirty[n] \/ act[a].inj
          /\ ~sp.force \/ act[a].inj
          /\ act' = Finish(a, "exc", <<>>)
          /\ UNCHANGED <<gens, cur, dirty, obj>>
    /\ UNCHANGED sid

RunServer(a) ==
    LET x == X(a) g == obj[x].g IN
    /\ Pend(a, "start") /\ Op(a).o = "run" /\ IsSrv(x)
    /\ CASE obj[x].st = "init" -> gens' = [gens EXCEPT ![g].run = TRUE, ![g].never = FALSE, ![g].sem = @ + 1]
         [] obj[x].st = "stop" -> gens' = [gens EXCEPT ![g].run = TRUE]
         [] OTHER -> gens' = gens
    /\ obj' = IF SrvOpen(x) THEN [obj EXCEPT ![x].st = "run"] ELSE obj
    /\ act' = IF SrvOpen(x) THEN Finish(a, "ok", <<>>)
              ELSE IF obj[x].st = "closed" THEN Finish(a, "exc", <<>>) ELSE Finish(a, "none", <<>>)
    /\ UNCHANGED <<sid, cur, dirty>>

StopServer(a) ==
    LET x == X(a) g == obj[x].g IN
    /\ Pend(a, "start") /\ Op(a).o = "stop" /\ IsSrv(x)
    /\ IF obj[x].st = "run"
       THEN /\ gens' = [gens EXCEPT ![g].run = FALSE]
            /\ obj' = [obj EXCEPT ![x].st = "stop"]
       ELSE UNCHANGED <<gens, obj>>
    /\ act' = IF obj[x].st = "none" THEN Finish(a, "none", <<>>)
              ELSE IF SrvOpen(x) THEN Finish(a, "ok", <<>>) ELSE Finish(a, "okexc", <<>>)
    /\ UNCHANGED <<sid, cur, dirty>>

CloseServer(a) ==
    LET x == X(a) g == obj[x].g n == Name(x) IN
    /\ Pend(a, "start") /\ Op(a).o \in {"close", "del"} /\ IsSrv(x)
    /\ IF SrvOpen(x)
       THEN /\ gens' = [gens EXCEPT ![g].run = FALSE, ![g].sem = IF gens[g].never THEN @ + 1 ELSE @,
                                    ![g].never = FALSE]
            /\ cur' = IF cur[n] = g THEN [cur EXCEPT ![n] = 0] ELSE cur
            /\ act' = Finish(a, "ok", <<>>)
       ELSE /\ UNCHANGED <<gens, cur>>
            /\ act' = IF obj[x].st = "none" THEN Finish(a, "none", <<>>)
                      ELSE IF Op(a).o = "del" THEN Finish(a, "ok", <<>>) ELSE Finish(a, "okexc", <<>>)
    /\ obj' = IF obj[x].st = "none" THEN obj
              ELSE [obj EXCEPT ![x].st = IF Op(a).o = "del" THEN "none" ELSE "closed"]
    /\ UNCHANGED <<sid, dirty>>

CountClients(a) ==
    LET x == X(a) g == obj[x].g IN
    /\ Op(a).o = "ncl" /\ IsSrv(x)
    /\ \/ /\ Pend(a, "start") /\ obj[x].st = "init"
          /\ act' = Finish(a, "ok", <<gens[g].cnt>>)
          /\ UNCHANGED gens
       \/ /\ Pend(a, "start") /\ obj[x].st \in {"run", "stop"} /\ gens[g].sem > 0
          /\ gens' = [gens EXCEPT ![g].sem = @ - 1]
          /\ act' = [act EXCEPT ![a].pc = "unlock", ![a].g = g, ![a].res = [s |-> "ok", v |-> <<gens[g].cnt>>]]
       \/ /\ Pend(a, "start") /\ obj[x].st = "closed"
          /\ act' = Finish(a, "any", <<>>)
          /\ UNCHANGED gens
       \/ /\ Pend(a, "start") /\ obj[x].st = "none"
          /\ act' = Finish(a, "none", <<>>)
          /\ UNCHANGED gens
    /\ UNCHANGED <<sid, cur, dirty, obj>>

\* the last internal step of the operations that take the data semaphore
Unlock(a) ==
    /\ Pend(a, "unlock")
    /\ gens' = [gens EXCEPT ![act[a].g].sem = @ + 1]
    /\ act' = Go(a, "done")
    /\ UNCHANGED <<sid, cur, dirty, obj>>

\* (a driver's object that exists is not created again)
NewTwice(a) ==
    /\ Pend(a, "start") /\ Op(a).o = "new" /\ O(a).st # "none"
    /\ act' = Finish(a, "badop", <<>>)
    /\ UNCHANGED <<sid, gens, cur, dirty, obj>>

----------------------------------------------------------------------------
(* manual acquisition; servers and clients *)

Locks(x) == \* the generations whose data semaphore the object may have open
    IF IsSrv(x) THEN (IF obj[x].st \in {"run", "stop"} THEN {obj[x].g} ELSE {})
    ELSE IF obj[x].st = "att" THEN {obj[x].g} ELSE IF obj[x].st = "none" THEN {} ELSE obj[x].lg
Sure(x) == IF IsSrv(x) THEN obj[x].st \in {"run", "stop"} ELSE obj[x].st = "att"

Acquire(a) ==
    LET x == X(a) IN
    /\ Pend(a, "start") /\ Op(a).o = "acq"
    /\ \/ \E g \in Locks(x) :
            /\ gens[g].sem > 0
            /\ gens' = [gens EXCEPT ![g].sem = @ - 1]
            /\ obj' = [obj EXCEPT ![x].h = @ + 1]
            /\ act' = Finish(a, "ok", <<>>)
       \/ /\ ~Sure(x)
          /\ act' = Finish(a, IF obj[x].st = "none" THEN "none" ELSE "exc", <<>>)
          /\ UNCHANGED <<gens, obj>>
    /\ UNCHANGED <<sid, cur, dirty>>

\* (the drivers release only what they have acquired - argument 1: regardless)
Release(a) ==
    LET x == X(a) raw == Len(Op(a).a) > 0 IN
    /\ Pend(a, "start") /\ Op(a).o = "rel"
    /\ IF obj[x].st = "none"
       THEN act' = Finish(a, "none", <<>>) /\ UNCHANGED <<gens, obj>>
       ELSE IF obj[x].h = 0 /\ ~raw
       THEN act' = Finish(a, "skip", <<>>) /\ UNCHANGED <<gens, obj>>
       ELSE /\ obj' = IF obj[x].h > 0 THEN [obj EXCEPT ![x].h = @ - 1] ELSE obj
            /\ \/ \E g \in Locks(x) :
                    /\ gens' = [gens EXCEPT ![g].sem = @ + 1]
                    /\ act' = Finish(a, "ok", <<>>)
               \/ /\ ~Sure(x) /\ (obj[x].h = 0 \/ Locks(x) = {})
                  /\ act' = Finish(a, "okexc", <<>>)
                  /\ UNCHANGED gens
    /\ UNCHANGED <<sid, cur, dirty>>

----------------------------------------------------------------------------
(* reading and writing *)

Active(x) == IF IsSrv(x) THEN obj[x].st = "run" ELSE obj[x].st = "att"

ReadWrite(a) ==
    LET x == X(a) g == obj[x].g op == Op(a)
        fits == Fits(g, op.a[1], op.a[2], op.a[3], op.a[4])
        after == IF op.o = "w" /\ fits THEN [gens EXCEPT ![g].data = Written(g, op)] ELSE gens
        res == IF ~fits THEN [s |-> "f", v |-> <<>>]
               ELSE IF op.o = "w" THEN [s |-> "t", v |-> <<>>]
               ELSE [s |-> "t", v |-> ReadBlock(g, op)]
    IN
    /\ Pend(a, "start") /\ op.o \in {"r", "w"}
    /\ IF ~Active(x)
       THEN /\ act' = Finish(a, IF obj[x].st = "none" THEN "none" ELSE "f", <<>>)
            /\ UNCHANGED gens
       ELSE IF ~Spec_(x).safe
       THEN /\ gens' = after
            /\ act' = Finish(a, res.s, res.v)
       ELSE \/ /\ gens[g].sem = 0 \/ ~fits
               /\ act' = Finish(a, "f", <<>>)
               /\ UNCHANGED gens
            \/ /\ gens[g].sem > 0
               /\ gens' = [after EXCEPT ![g].sem = @ - 1]
               /\ act' = [act EXCEPT ![a].pc = "unlock", ![a].g = g, ![a].res = res]
    /\ UNCHANGED <<sid, cur, dirty, obj>>

----------------------------------------------------------------------------
(* clients *)

NewClient(a) ==
    /\ Pend(a, "start") /\ Op(a).o = "new" /\ ~IsSrv(X(a)) /\ obj[X(a)].st = "none"
    /\ obj' = [obj EXCEPT ![X(a)] = [NoObj EXCEPT !.st = "det"]]
    /\ act' = Finish(a, "ok", <<>>)
    /\ UNCHANGED <<sid, gens, cur, dirty>>

\* attach: first leaves the server it is attached to
AttachDetach(a) ==
    LET x == X(a) g == obj[x].g IN
    /\ Pend(a, "adetach")
    /\ gens[g].sem > 0
    /\ gens' = [gens EXCEPT ![g].sem = @ - 1, ![g].cnt = @ - 1]
    /\ obj' = [obj EXCEPT ![x].st = "det", ![x].lg = {g}]
    /\ act' = [act EXCEPT ![a].pc = "adetached", ![a].g = g]
    /\ UNCHANGED <<sid, cur, dirty>>
AttachDetached(a) ==
    /\ Pend(a, "adetached")
    /\ gens' = [gens EXCEPT ![act[a].g].sem = @ + 1]
    /\ act' = [act EXCEPT ![a].pc = "wait", ![a].lo = NextLo(Name(X(a)))]
    /\ UNCHANGED <<sid, cur, dirty, obj>>

Candidates(a) == {g \in act[a].lo..Len(gens) : gens[g].nm = Name(X(a))}

\* ... then takes the data semaphore of a server it has seen
AttachLock(a) ==
    /\ Pend(a, "wait") /\ Op(a).o = "attach"
    /\ obj[X(a)].st # "none"
    /\ \E g \in Candidates(a) :
          /\ gens[g].sem > 0
          /\ gens' = [gens EXCEPT ![g].sem = @ - 1]
          /\ act' = [act EXCEPT ![a].pc = "alocked", ![a].g = g]
          /\ obj' = [obj EXCEPT ![X(a)].lg = {g}]
    /\ UNCHANGED <<sid, cur, dirty>>

TypesMatch(x, g) == Spec_(x).dt = gens[g].dt /\ Spec_(x).lay = gens[g].lay

\* ... and under it becomes a client of that server, if it still is the one running
AttachDecide(a) ==
    LET x == X(a) g == act[a].g IN
    /\ Pend(a, "alocked")
    /\ \/ /\ Running(g) /\ TypesMatch(x, g) /\ ~act[a].inj
          /\ gens' = [gens EXCEPT ![g].cnt = @ + 1]
          /\ obj' = [obj EXCEPT ![x].st = "att", ![x].g = g, ![x].lg = {g}]
          /\ act' = [act EXCEPT ![a].pc = "unlock", ![a].res = [s |-> "ok", v |-> <<gens[g].rows, gens[g].cols>>]]
       \/ /\ \/ Running(g) /\ ~TypesMatch(x, g)
             \/ act[a].inj
          /\ act' = [act EXCEPT ![a].pc = "unlock", ![a].res = [s |-> "exc", v |-> <<>>]]
          /\ UNCHANGED <<gens, obj>>
       \/ /\ ~Running(g)
          /\ gens' = [gens EXCEPT ![g].sem = @ + 1]
          /\ act' = [act EXCEPT ![a].pc = "wait", ![a].g = 0, ![a].inj = FALSE, ![a].lo = NextLo(Name(x))]
          /\ UNCHANGED obj
    /\ UNCHANGED <<sid, cur, dirty>>

AttachNone(a) ==
    /\ Pend(a, "wait") /\ obj[X(a)].st = "none"
    /\ act' = Finish(a, "none", <<>>)
    /\ UNCHANGED <<sid, gens, cur, dirty, obj>>

\* a client that was interrupted or refused a resource before it took anything
GiveUp(a) ==
    LET x == X(a) IN
    /\ \/ Pend(a, "wait") /\ (act[a].intr \/ act[a].inj)
       \/ Pend(a, "adetach") /\ act[a].intr
       \/ Pend(a, "start") /\ act[a].intr /\ Op(a).o \in {"acq", "ncl", "detach", "close"}
    /\ act' = Finish(a, "exc", <<>>)
    /\ obj' = IF Pend(a, "wait") THEN [obj EXCEPT ![x].lg = @ \cup Candidates(a)] ELSE obj
    /\ UNCHANGED <<sid, gens, cur, dirty>>

Leave(a) == \* detach, close or destruction of a client
    LET x == X(a) g == obj[x].g
        to == CASE Op(a).o = "detach" -> "det" [] Op(a).o = "close" -> "closed" [] OTHER -> "none" IN
    /\ Pend(a, "start") /\ Op(a).o \in {"detach", "close", "del"} /\ ~IsSrv(x)
    /\ IF obj[x].st = "att"
       THEN /\ gens[g].sem > 0
            /\ gens' = [gens EXCEPT ![g].sem = @ - 1, ![g].cnt = @ - 1]
            /\ obj' = [obj EXCEPT ![x].st = to, ![x].g = 0, ![x].lg = IF to = "det" THEN {g} ELSE {}]
            /\ act' = [act EXCEPT ![a].pc = "unlock", ![a].g = g, ![a].res = [s |-> "ok", v |-> <<>>]]
       ELSE /\ act' = Finish(a, IF obj[x].st = "none" THEN "none" ELSE "ok", <<>>)
            /\ obj' = IF obj[x].st = "none" \/ Op(a).o = "detach" THEN obj
                      ELSE [obj EXCEPT ![x].st = to, ![x].g = 0, ![x].lg = {}]
            /\ UNCHANGED gens
    /\ UNCHANGED <<sid, cur, dirty>>

----------------------------------------------------------------------------
(* inspection *)

Quiet(n, a) == ~\E b \in Actors \ {a} : /\ act[b].st = "pend" /\ act[b].op.x # 0
                                        /\ Name(act[b].op.x) = n
                                        /\ act[b].op.o \in {"new", "close", "del", "attach"}

\* a view of a block of an ordinary matrix, and the matrix after assigning to the view
View(a) ==
    LET p == Op(a).a dt == p[1] rows == p[3] cols == p[4] r == p[5] c == p[6] n == p[7] m == p[8]
        fits == r >= 0 /\ c >= 0 /\ r < rows /\ c < cols /\ n >= 0 /\ m >= 0 /\ r + n <= rows /\ c + m <= cols
        val(i, j) == Enc(dt, i * cols + j + 1)
        shown == [k \in 1..(n * m) |-> val(r + ((k - 1) \div m), c + ((k - 1) % m))]
        left == [k \in 1..(rows * cols) |->
                    LET i == (k - 1) \div cols j == (k - 1) % cols IN
                    IF i >= r /\ i < r + n /\ j >= c /\ j < c + m
                    THEN Enc(dt, 101 + (i - r) * m + (j - c)) ELSE val(i, j)]
    IN IF fits THEN Finish(a, "t", shown \o left) ELSE Finish(a, "exc", <<>>)

Inspect(a) ==
    LET op == Op(a) x == op.x IN
    /\ Pend(a, "start") /\ op.o \in {"isrun", "dims", "info", "fds", "names", "own", "nop", "view"}
    /\ act' = CASE op.o \in {"own", "nop"} -> Finish(a, "ok", <<>>)
              [] op.o = "view" -> View(a)
              [] op.o = "isrun" -> IF obj[x].st = "none" THEN Finish(a, "none", <<>>)
                                   ELSE Finish(a, IF Active(x) THEN "t" ELSE "f", <<>>)
              [] op.o = "dims" -> IF obj[x].st = "none" THEN Finish(a, "none", <<>>)
                                  ELSE IF IsSrv(x) THEN Finish(a, "ok", <<Spec_(x).rows, Spec_(x).cols>>)
                                  ELSE IF obj[x].st = "att" THEN Finish(a, "ok", <<gens[obj[x].g].rows, gens[obj[x].g].cols>>)
                                  ELSE Finish(a, "any", <<>>)
              [] op.o = "info" -> IF obj[x].st = "none" THEN Finish(a, "none", <<>>)
                                  ELSE Finish(a, "ok", <<Spec_(x).dt, Spec_(x).lay, 1, 1>>)
              [] op.o = "fds" -> \* all descriptors of a process whose objects are all closed are closed
                   IF /\ \A y \in Objs : Spec_(y).proc = Proc(a) => obj[y].st \in {"none", "closed"}
                      /\ ~\E b \in Actors \ {a} : Proc(b) = Proc(a) /\ act[b].st = "pend"
                   THEN Finish(a, "ok", <<0>>) ELSE Finish(a, "any", <<>>)
              [] op.o = "names" -> \* nothing is left of a name without server (but the running flag)
                   LET n == op.a[1] IN
                   IF cur[n] = 0 /\ ~dirty[n] /\ Quiet(n, a) THEN Finish(a, "ok", <<0>>) ELSE Finish(a, "any", <<>>)
    /\ UNCHANGED <<sid, gens, cur, dirty, obj>>

----------------------------------------------------------------------------
(* crashes, signals, refused system calls *)

\* generations an unfinished operation may have left in any state
Touched(a) ==
    IF act[a].st # "pend" \/ act[a].op.x = 0 THEN {}
    ELSE ({act[a].g, obj[act[a].op.x].g}
          \cup (IF act[a].op.o = "attach" THEN Candidates(a) \cup {cur[Name(act[a].op.x)]} ELSE {})) \ {0}

Crash(p) ==
    LET dead == {a \in Actors : Proc(a) = p}
        lost == {x \in Objs : Spec_(x).proc = p}
        wild == UNION {Touched(a) : a \in dead}
        names == {Name(x) : x \in {y \in lost : IsSrv(y) /\ SrvOpen(y)}}
                 \cup {Name(act[a].op.x) : a \in {b \in dead : act[b].st = "pend" /\ act[b].op.x # 0 /\ IsSrv(act[b].op.x)}}
        nd == [n \in DOMAIN dirty |-> dirty[n] \/ n \in names]
    IN
    /\ dirty' = nd
    /\ gens' = [g \in DOMAIN gens |-> IF g \in wild THEN [gens[g] EXCEPT !.wild = TRUE] ELSE gens[g]]
    /\ obj' = [x \in Objs |-> IF x \in lost THEN [NoObj EXCEPT !.st = "dead"] ELSE obj[x]]
    /\ act' = [a \in Actors |-> IF a \in dead THEN [Idle EXCEPT !.st = "dead"]
                                ELSE IF act[a].st = "pend" /\ act[a].op.o = "attach" /\ nd[Name(act[a].op.x)]
                                THEN [act[a] EXCEPT !.exc = TRUE] ELSE act[a]]
    /\ UNCHANGED <<sid, cur>>

Interrupt(a) ==
    /\ act[a].st = "pend"
    /\ act' = [act EXCEPT ![a].intr = TRUE]
    /\ UNCHANGED <<sid, gens, cur, dirty, obj>>

Refuse(a) ==
    /\ act[a].st = "pend"
    /\ act' = [act EXCEPT ![a].inj = TRUE]
    /\ UNCHANGED <<sid, gens, cur, dirty, obj>>

\* what is left of a generation somebody crashed on: anything may happen there
\* (but a server can still be closed, and nothing spreads to other generations)
WildStep(a) ==
    LET x == X(a) IN
    /\ act[a].st = "pend" /\ act[a].pc # "done" /\ x # 0
    /\ \/ /\ obj[x].st \in {"att", "det"} \/ IsSrv(x)
          /\ obj[x].g # 0 /\ gens[obj[x].g].wild
          /\ ~(IsSrv(x) /\ Op(a).o \in {"new", "run", "stop", "close", "del", "isrun", "dims"})
          /\ Op(a).o # "attach"
          /\ act' = Finish(a, "any", <<>>)
          /\ obj' = IF ~IsSrv(x) /\ Op(a).o \in {"detach", "close", "del"}
                    THEN [obj EXCEPT ![x].st = IF Op(a).o = "del" THEN "none" ELSE "wild"] ELSE obj
          /\ UNCHANGED gens
       \/ /\ obj[x].st = "wild"
          /\ act' = Finish(a, "any", <<>>)
          /\ UNCHANGED <<obj, gens>>
       \* attaching between a crash and the recovery
       \/ /\ Op(a).o = "attach" /\ act[a].exc /\ Pend(a, "wait")
          /\ act' = Finish(a, "exc", <<>>)
          /\ UNCHANGED <<obj, gens>>
       \/ /\ Op(a).o = "attach" /\ act[a].exc /\ Pend(a, "wait")
          /\ \E g \in 1..Len(gens) :
               /\ gens[g].nm = Name(x)
               /\ gens[g].wild \/ (g = cur[Name(x)] /\ dirty[Name(x)])
               /\ gens' = [gens EXCEPT ![g].wild = TRUE]
               /\ obj' = [obj EXCEPT ![x].st = "att", ![x].g = g, ![x].lg = {g}]
          /\ act' = Finish(a, "any", <<>>)
    /\ UNCHANGED <<sid, cur, dirty>>

----------------------------------------------------------------------------

Silent(a) ==
    \/ /\ act[a].st = "pend" /\ act[a].op.x # 0
       /\ \/ NewServer(a) \/ NewTwice(a) \/ RunServer(a) \/ StopServer(a) \/ CloseServer(a)
          \/ CountClients(a) \/ Unlock(a) \/ Acquire(a) \/ Release(a) \/ ReadWrite(a)
          \/ NewClient(a) \/ AttachDetach(a) \/ AttachDetached(a) \/ AttachLock(a)
          \/ AttachDecide(a) \/ AttachNone(a) \/ GiveUp(a) \/ Leave(a) \/ WildStep(a)
    \/ act[a].st = "pend" /\ Inspect(a)

\* an actor that cannot make progress, unless somebody else does something
Blocked(a) ==
    LET x == X(a) IN
    \/ act[a].st \in {"idle", "dead"}
    \/ /\ act[a].st = "pend"
       /\ \/ /\ Pend(a, "start") /\ Op(a).o \in {"acq", "ncl", "detach", "close", "del"}
             /\ \E g \in Locks(x) \cup (IF obj[x].g = 0 THEN {} ELSE {obj[x].g}) : gens[g].sem = 0 \/ gens[g].wild
             /\ ~(IsSrv(x) /\ Op(a).o \in {"close", "del"})
          \/ /\ Pend(a, "adetach") /\ (gens[obj[x].g].sem = 0 \/ gens[obj[x].g].wild)
          \/ /\ Pend(a, "wait")
             /\ \/ ~Running(cur[Name(x)])
                \/ \E g \in Candidates(a) : gens[g].sem = 0 \/ gens[g].wild
                \/ act[a].exc
          \/ obj[x].st = "wild"

Stuck(S) == /\ \A a \in S : Blocked(a)
            /\ UNCHANGED vars

=============================================================================
