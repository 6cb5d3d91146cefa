-------------------------------- MODULE Bridge --------------------------------
(***************************************************************************)
(* The bridge between shared tensors and topics (of ROS).                  *)
(*                                                                         *)
(* A *forwarder* (ToRos; of a tensor or a string tensor) is a client with  *)
(* a publisher: once run, it has announced the tensor's shape and type,    *)
(* and each update publishes contents the tensor had during the update.    *)
(* A *receiver* (FromRos) subscribes to a topic; once it knows shape and   *)
(* type, running it creates a server of that shape and type, and each      *)
(* update makes the shared tensor what the last message delivered said.    *)
(*                                                                         *)
(* Topics are kept by an idealised ROS: reliable, in order, latched; a     *)
(* subscriber's queue keeps the last messages.  Messages may also come     *)
(* from elsewhere and need not make sense.                                 *)
(***************************************************************************)
EXTENDS StringTensor

VARIABLES top,  \* topic -> kind of message -> those latched
          sub,  \* receiver -> what it has subscribed to, what is queued, what it knows
          bp    \* actor -> what its operation has still to publish

bvars == <<vars, top, sub, bp>>

Kinds == 1..4           \* messages: rows, columns, type, data
IsFwd(x) == x # 0 /\ Spec_(x).k \in {"tor", "tos"}
IsRcv(x) == x # 0 /\ Spec_(x).k \in {"frr", "frs"}
IsTop(x) == x # 0 /\ Spec_(x).k = "top"
Strs(x) == Spec_(x).k \in {"tos", "frs"}
Depth(x) == Spec_(x).rows
Latched(x) == IF Spec_(x).cols = 1 THEN Depth(x) ELSE 1
T(x) == SC.tids[Name(x)]        \* the topic of an object

NaN == -99998
Code(dt) == <<2, 3, 1, 0>>[dt + 1]
Type(code) == CHOOSE dt \in 0..3 : Code(dt) = code
Nothing == [what |-> "", v |-> <<>>]
NoSub == [on |-> {}, q |-> [k \in Kinds |-> <<>>], rows |-> -1, cols |-> -1, dt |-> -1, mir |-> <<>>]

Last(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))

BInitWith(s) ==
    /\ InitWith(s)
    /\ top = [n \in 1..Scenarios[s].nnames |-> [k \in Kinds |-> <<>>]]
    /\ sub = [x \in 1..Len(Scenarios[s].objs) |-> NoSub]
    /\ bp = [a \in 1..Len(Scenarios[s].procs) |-> Nothing]

----------------------------------------------------------------------------
(* topics *)

\* several messages <<kind, values>> published by x, one after the other
RECURSIVE Pub(_, _, _, _)
Pub(tp, sb, x, ms) ==
    IF ms = <<>> THEN [top |-> tp, sub |-> sb]
    ELSE LET k == Head(ms)[1] v == Head(ms)[2] t == T(x) IN
         Pub([tp EXCEPT ![t][k] = Last(Append(@, v), Latched(x))],
             [y \in DOMAIN sb |-> IF IsRcv(y) /\ T(y) = t /\ k \in sb[y].on
                                  THEN [sb[y] EXCEPT !.q[k] = Last(Append(@, v), Depth(y))] ELSE sb[y]],
             x, Tail(ms))
Publish(x, ms) == LET r == Pub(top, sub, x, ms) IN top' = r.top /\ sub' = r.sub

Subscribe(x, ks) ==
    sub' = [sub EXCEPT ![x].on = @ \cup ks,
                       ![x].q = [k \in Kinds |-> IF k \in ks THEN Last(top[T(x)][k], Depth(x)) ELSE @[k]]]

----------------------------------------------------------------------------
(* forwarders *)

BMeans(x, op) ==
    CASE op.o = "trun" -> [op EXCEPT !.o = IF obj[x].st = "att" THEN "again" ELSE "attach"]
      [] op.o = "tclose" -> [op EXCEPT !.o = "close"]
      [] OTHER -> op

BCall(a, op) ==
    /\ IF IsFwd(op.x) THEN Call(a, BMeans(op.x, op)) ELSE SCall(a, op)
    /\ bp' = [bp EXCEPT ![a] = IF IsFwd(op.x) /\ op.o = "trun" /\ obj[op.x].st # "none" THEN [Nothing EXCEPT !.what = "meta"] ELSE Nothing]
    /\ UNCHANGED <<top, sub>>
BRet(a, s, v) ==
    /\ bp[a].what = "" \/ act[a].res.s = "exc"
    /\ Ret(a, s, v)
    /\ UNCHANGED <<top, sub, bp>>

\* an attached forwarder that is run again
FwdAgain(a) ==
    /\ Pend(a, "start") /\ Op(a).o = "again"
    /\ act' = Finish(a, "ok", <<gens[O(a).g].rows, gens[O(a).g].cols>>)
    /\ UNCHANGED <<sid, gens, cur, dirty, obj, top, sub, bp>>

\* the data a forwarder publishes first: nothing yet
Blank(x, n) == [k \in 1..n |-> IF ~Strs(x) /\ Spec_(x).dt < 2 THEN NaN ELSE 0]
Announce(a) ==
    LET x == X(a) g == obj[x].g IN
    /\ bp[a].what = "meta" /\ Pend(a, "done") /\ act[a].res.s = "ok"
    /\ Publish(x, << <<1, <<IF Strs(x) THEN 256 ELSE gens[g].rows>>>>, <<2, <<gens[g].cols>>>>,
                     <<3, <<IF Strs(x) THEN 1 ELSE Code(Spec_(x).dt)>>>>,
                     <<4, Blank(x, gens[g].rows * gens[g].cols)>> >>)
    /\ bp' = [bp EXCEPT ![a] = Nothing]
    /\ obj' = [obj EXCEPT ![x].h = 1]           \* (h: it has announced)
    /\ UNCHANGED <<sid, gens, cur, dirty, act>>

FwdUpdate(a) ==
    LET x == X(a) g == obj[x].g IN
    /\ Pend(a, "start") /\ Op(a).o = "tupd"
    /\ IF obj[x].st = "none" THEN act' = Finish(a, "none", <<>>) /\ UNCHANGED <<gens, bp>>
       ELSE IF obj[x].h = 0 \/ ~Active(x) THEN (\E s \in {"f", "exc"} : act' = Finish(a, s, <<>>)) /\ UNCHANGED <<gens, bp>>
       ELSE IF Strs(x) /\ \E k \in DOMAIN gens[g].data : ~Text(gens[g].data[k])
       THEN act' = Finish(a, "exc", <<>>) /\ UNCHANGED <<gens, bp>>
       ELSE /\ bp' = [bp EXCEPT ![a] = [what |-> "data", v |-> gens[g].data]]
            /\ IF Spec_(x).safe
               THEN /\ gens[g].sem > 0
                    /\ gens' = [gens EXCEPT ![g].sem = @ - 1]
                    /\ act' = [act EXCEPT ![a].pc = "unlock", ![a].g = g, ![a].res = [s |-> "t", v |-> <<>>]]
               ELSE act' = Finish(a, "t", <<>>) /\ UNCHANGED gens
    /\ UNCHANGED <<sid, cur, dirty, obj, top, sub>>
FwdPublish(a) ==
    /\ bp[a].what = "data" /\ Pend(a, "done")
    /\ Publish(X(a), << <<4, bp[a].v>> >>)
    /\ bp' = [bp EXCEPT ![a] = Nothing]
    /\ UNCHANGED vars

FwdOps == {"tupd", "again"}
Fwd(a) == IF Op(a).o \in FwdOps /\ ~(act[a].pc = "unlock")
          THEN FwdAgain(a) \/ FwdUpdate(a) \/ FwdPublish(a) \/ Announce(a)
          ELSE \/ Silent(a) /\ UNCHANGED <<top, sub, bp>>
               \/ Announce(a)

----------------------------------------------------------------------------
(* receivers *)

Sane(x) == sub[x].rows > 0 /\ sub[x].cols > 0
Informed(x) == sub[x].rows >= 0 /\ sub[x].cols >= 0 /\ sub[x].dt >= 0
Quit(a, s) == act' = Finish(a, s, <<>>)

RcvNew(a) ==
    LET x == X(a) IN
    /\ Pend(a, "start") /\ Op(a).o = "new"
    /\ IF obj[x].st = "none"
       THEN /\ obj' = [obj EXCEPT ![x] = [NoObj EXCEPT !.st = "sub"]]
            /\ Subscribe(x, {1, 2, 3})
            /\ Quit(a, "ok")
       ELSE Quit(a, "badop") /\ UNCHANGED <<obj, sub>>
    /\ UNCHANGED <<sid, gens, cur, dirty, top, bp>>

\* everything that has arrived is taken note of: the first of each kind of
\* announcement, the last data that is of the announced size
First(old, q) == IF old >= 0 \/ q = <<>> THEN old ELSE q[1][1]
Sensible(q) == SelectSeq(q, LAMBDA m : m[1] \in 0..3)
Size(x) == IF Strs(x) THEN sub[x].cols ELSE sub[x].rows * sub[x].cols
Good(x, q) == SelectSeq(q, LAMBDA m : Len(m) = Size(x))
Conv(x, m) == [k \in DOMAIN m |-> IF Strs(x) THEN m[k] ELSE Enc(sub[x].dt, m[k])]
RcvSpin(a) ==
    LET x == X(a) s == sub[x] data == Good(x, s.q[4]) types == Sensible(s.q[3]) IN
    /\ Pend(a, "start") /\ Op(a).o = "spin"
    /\ IF obj[x].st = "none" THEN Quit(a, "none") /\ UNCHANGED sub
       ELSE /\ Quit(a, "ok")
            /\ sub' = [sub EXCEPT ![x] = [s EXCEPT !.q = [k \in Kinds |-> <<>>],
                         !.rows = First(@, s.q[1]), !.cols = First(@, s.q[2]),
                         !.dt = IF @ >= 0 \/ types = <<>> THEN @ ELSE Type(types[1][1]),
                         !.mir = IF data = <<>> THEN @ ELSE Conv(x, data[Len(data)])]]
    /\ UNCHANGED <<sid, gens, cur, dirty, obj, top, bp>>

RcvRun(a) ==
    LET x == X(a) s == sub[x] n == Size(x) IN
    /\ Op(a).o = "frun"
    /\ CASE Pend(a, "start") /\ obj[x].st = "none" -> Quit(a, "none") /\ UNCHANGED <<gens, cur, obj, sub>>
         [] Pend(a, "start") /\ obj[x].st = "closed" -> (\E r \in {"f", "exc"} : Quit(a, r)) /\ UNCHANGED <<gens, cur, obj, sub>>
         [] Pend(a, "start") /\ obj[x].st = "run" -> Quit(a, "t") /\ UNCHANGED <<gens, cur, obj, sub>>
         [] Pend(a, "start") /\ obj[x].st = "sub" /\ ~Informed(x) -> Quit(a, "f") /\ UNCHANGED <<gens, cur, obj, sub>>
         [] Pend(a, "start") /\ obj[x].st = "sub" /\ Informed(x) ->
              \/ ~Sane(x) /\ (\E r \in {"f", "exc"} : Quit(a, r)) /\ UNCHANGED <<gens, cur, obj, sub>>
              \/ /\ act' = Go(a, "make")
                 /\ sub' = IF 4 \in s.on THEN sub
                           ELSE [sub EXCEPT ![x] = [s EXCEPT !.on = Kinds, !.q[4] = Last(top[T(x)][4], Depth(x)),
                                   !.mir = [k \in 1..n |-> IF ~Strs(x) /\ s.dt < 2 THEN NaN ELSE 0]]]
                 /\ UNCHANGED <<gens, cur, obj>>
         [] Pend(a, "make") ->
              /\ IF Sane(x) /\ (cur[Name(x)] = 0 \/ Spec_(x).force)
                 THEN /\ gens' = Append(gens, [nm |-> Name(x), rows |-> IF Strs(x) THEN 1 ELSE s.rows, cols |-> s.cols, dt |-> s.dt, lay |-> 1,
                                               data |-> [k \in 1..n |-> 0],
                                               cnt |-> 0, sem |-> 0, run |-> FALSE, never |-> TRUE, wild |-> FALSE])
                      /\ cur' = [cur EXCEPT ![Name(x)] = Len(gens) + 1]
                      /\ obj' = [obj EXCEPT ![x].st = "init", ![x].g = Len(gens) + 1]
                      /\ act' = Go(a, "go")
                 ELSE Quit(a, "exc") /\ UNCHANGED <<gens, cur, obj>>
              /\ UNCHANGED sub
         [] Pend(a, "go") ->
              /\ gens' = [gens EXCEPT ![obj[x].g].run = TRUE, ![obj[x].g].never = FALSE, ![obj[x].g].sem = @ + 1]
              /\ obj' = [obj EXCEPT ![x].st = "run"]
              /\ Quit(a, "t")
              /\ UNCHANGED <<cur, sub>>
         [] OTHER -> FALSE
    /\ UNCHANGED <<sid, dirty, top, bp>>

RcvUpdate(a) ==
    LET x == X(a) g == obj[x].g IN
    /\ Op(a).o = "fupd" /\ Pend(a, "start")
    /\ IF obj[x].st = "run"
       THEN /\ gens[g].sem > 0
            /\ gens' = [gens EXCEPT ![g].sem = @ - 1, ![g].data = sub[x].mir]
            /\ act' = [act EXCEPT ![a].pc = "unlock", ![a].g = g, ![a].res = [s |-> "t", v |-> <<>>]]
       ELSE Quit(a, IF obj[x].st = "none" THEN "none" ELSE "f") /\ UNCHANGED gens
    /\ UNCHANGED <<sid, cur, dirty, obj, top, sub, bp>>

RcvClose(a) ==
    LET x == X(a) g == obj[x].g IN
    /\ Op(a).o = "fclose" /\ Pend(a, "start")
    /\ Quit(a, CASE obj[x].st = "none" -> "none" [] obj[x].st = "closed" -> "okexc" [] OTHER -> "ok")
    /\ IF obj[x].st = "none" THEN UNCHANGED <<gens, cur, obj, sub>>
       ELSE /\ obj' = [obj EXCEPT ![x].st = "closed"]
            /\ sub' = [sub EXCEPT ![x].on = {}, ![x].q = [k \in Kinds |-> <<>>]]
            /\ gens' = IF obj[x].st = "run" THEN [gens EXCEPT ![g].run = FALSE] ELSE gens
            /\ cur' = IF obj[x].st = "run" /\ cur[Name(x)] = g THEN [cur EXCEPT ![Name(x)] = 0] ELSE cur
    /\ UNCHANGED <<sid, dirty, top, bp>>

\* subscriptions that are still there
RcvCount(a) ==
    LET x == X(a) IN
    /\ Op(a).o = "nsub" /\ Pend(a, "start")
    /\ act' = IF obj[x].st = "none" THEN Finish(a, "none", <<>>) ELSE Finish(a, "ok", <<Cardinality(sub[x].on)>>)
    /\ UNCHANGED <<sid, gens, cur, dirty, obj, top, sub, bp>>

Rcv(a) == \/ RcvNew(a) \/ RcvSpin(a) \/ RcvRun(a) \/ RcvUpdate(a) \/ RcvClose(a) \/ RcvCount(a)
          \/ Unlock(a) /\ UNCHANGED <<top, sub, bp>>

----------------------------------------------------------------------------
(* messages from elsewhere, and the last message *)

TopOp(a) ==
    LET x == X(a) op == Op(a) k == op.a[1] h == top[T(x)][k] IN
    /\ Pend(a, "start") /\ op.o \in {"tp", "tl"}
    /\ IF op.o = "tp"
       THEN Publish(x, << <<k, SubSeq(op.a, 2, Len(op.a))>> >>) /\ Quit(a, "ok")
       ELSE /\ act' = IF h = <<>> THEN Finish(a, "f", <<>>) ELSE Finish(a, "t", h[Len(h)])
            /\ UNCHANGED <<top, sub>>
    /\ UNCHANGED <<sid, gens, cur, dirty, obj, bp>>

----------------------------------------------------------------------------
BSilent(a) ==
    IF act[a].st # "pend" THEN FALSE
    ELSE IF IsFwd(X(a)) THEN Fwd(a)
    ELSE IF IsRcv(X(a)) THEN Rcv(a)
    ELSE IF IsTop(X(a)) THEN TopOp(a)
    ELSE StrSilent(a) /\ UNCHANGED <<top, sub, bp>>

BBlocked(a) ==
    \/ Blocked(a)
    \/ /\ act[a].st = "pend" /\ Pend(a, "start") /\ Op(a).o \in {"tupd", "fupd"}
       /\ O(a).g # 0 /\ gens[O(a).g].sem = 0 /\ (Spec_(X(a)).safe \/ IsRcv(X(a)))
BStuck(S) == (\A a \in S : BBlocked(a)) /\ UNCHANGED bvars

=============================================================================
