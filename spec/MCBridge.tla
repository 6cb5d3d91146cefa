------------------------------- MODULE MCBridge -------------------------------
(* Bridge with an environment that calls anything at any time. *)
EXTENDS Bridge, TLC

CONSTANT World

O_(k, nm, proc, dt, safe, rows, cols) ==
    [k |-> k, nm |-> nm, proc |-> proc, dt |-> dt, lay |-> 1, safe |-> safe, force |-> FALSE, rows |-> rows, cols |-> cols]
SC_(procs, objs) == [nnames |-> 2, procs |-> procs, objs |-> objs, tids |-> <<1, 1>>, strs |-> <<0, 5>>, text |-> <<TRUE, TRUE>>]
Srv(proc, dt) == O_("srv", 1, proc, dt, TRUE, 1, 2)
Fwd_(proc, dt, q, r2) == O_("tor", 1, proc, dt, TRUE, q, r2)
Rcv_(proc, q, r2) == O_("frr", 2, proc, 0, TRUE, q, r2)
Top_(proc, q, r2) == O_("top", 1, proc, 0, TRUE, q, r2)
Cli(proc, nm, dt) == O_("cli", nm, proc, dt, TRUE, 0, 0)

\* what each kind of object is asked to do
Worlds == [
  fwd   |-> [sc |-> SC_(<<1, 2>>, <<Srv(1, 2), Fwd_(2, 2, 1, 0)>>), max |-> <<6, 5>>,
             o |-> [srv |-> {<<"w", 0, 0, 1, 2, 1, 1, 0>>, <<"w", 0, 1, 1, 1, 3, 1, 0>>, <<"close">>}, tor |-> {<<"trun">>, <<"tupd">>, <<"tclose">>}]],
  rcv   |-> [sc |-> SC_(<<1, 2>>, <<Top_(1, 1, 0), Rcv_(2, 2, 0), Cli(2, 2, 0)>>), max |-> <<5, 6>>,
             o |-> [top |-> {<<"tp", 1, 1>>, <<"tp", 2, 2>>, <<"tp", 3, 2>>, <<"tp", 4, 1, 2>>, <<"tp", 4, 3>>},
                    frr |-> {<<"spin">>, <<"frun">>, <<"fupd">>, <<"fclose">>}, cli |-> {<<"isrun">>}]],
  odd   |-> [sc |-> SC_(<<1, 2>>, <<Top_(1, 2, 1), Rcv_(2, 1, 1)>>), max |-> <<5, 5>>,
             o |-> [top |-> {<<"tp", 1, 1>>, <<"tp", 1, 2>>, <<"tp", 2, 1>>, <<"tp", 3, 0>>, <<"tp", 3, 9>>, <<"tp", 4, 1>>, <<"tp", 4, 2, 3>>},
                    frr |-> {<<"spin">>, <<"frun">>, <<"fupd">>, <<"fclose">>}]],
  both  |-> [sc |-> SC_(<<1, 2>>, <<Srv(1, 2), Fwd_(1, 2, 1, 0), Rcv_(2, 1, 0)>>), max |-> <<8, 5>>,
             o |-> [srv |-> {<<"w", 0, 0, 1, 2, 1, 1, 0>>, <<"w", 0, 1, 1, 1, 3, 1, 0>>}, tor |-> {<<"trun">>, <<"tupd">>},
                    frr |-> {<<"spin">>, <<"frun">>, <<"fupd">>}]],
  both2 |-> [sc |-> SC_(<<1, 2, 3>>, <<Srv(1, 2), Fwd_(2, 2, 1, 1), Rcv_(3, 2, 1)>>), max |-> <<5, 4, 6>>,
             o |-> [srv |-> {<<"w", 0, 0, 1, 2, 1, 1, 0>>, <<"w", 0, 1, 1, 1, 3, 1, 0>>}, tor |-> {<<"trun">>, <<"tupd">>},
                    frr |-> {<<"spin">>, <<"frun">>, <<"fupd">>, <<"fclose">>}]]]
Wd == Worlds[World]
MCScenarios == <<Wd.sc>>

VARIABLES calls,
          was,      \* what the tensor with the first name has been, in order
          since,    \* actor -> how long that was when its operation began
          sent      \* what has been published as data, in order
hist == <<was, since, sent>>
mvars == <<bvars, calls, hist>>

MCInit == BInitWith(1) /\ calls = [a \in Actors |-> 0] /\ was = <<>> /\ since = [a \in Actors |-> 0] /\ sent = <<>>
Mine(a) == {x \in Objs : Spec_(x).proc = Proc(a)}
Menu(x) == IF obj[x].st = "none" /\ Spec_(x).k # "top" THEN {<<"new">>}
           ELSE IF Spec_(x).k = "srv" /\ obj[x].st = "init" THEN {<<"run">>}
           ELSE Wd.o[Spec_(x).k]

\* this step publishes data
Publishes(a) == \/ bp[a].what # "" /\ bp'[a].what = ""
                \/ Pend(a, "start") /\ Op(a).o = "tp" /\ Op(a).a[1] = 4 /\ act'[a].pc = "done"
Watch ==
    /\ was' = IF cur'[1] # 0 /\ (was = <<>> \/ gens'[cur'[1]].data # was[Len(was)]) THEN Append(was, gens'[cur'[1]].data) ELSE was
    /\ sent' = IF \E a \in Actors : Publishes(a) THEN Append(sent, top'[1][4][Len(top'[1][4])]) ELSE sent

ECall(a) == /\ calls[a] < Wd.max[a]
            /\ \E x \in Mine(a) : \E o \in Menu(x) : BCall(a, [o |-> o[1], x |-> x, a |-> Tail(o)])
            /\ calls' = [calls EXCEPT ![a] = @ + 1]
            /\ since' = [since EXCEPT ![a] = Len(was)] /\ UNCHANGED <<was, sent>>
ERet(a) == /\ Pend(a, "done") /\ (bp[a].what = "" \/ act[a].res.s = "exc") /\ act' = [act EXCEPT ![a] = Idle]
           /\ UNCHANGED <<sid, gens, cur, dirty, obj, top, sub, bp, calls, hist>>
ESilent(a) == BSilent(a) /\ Watch /\ UNCHANGED <<calls, since>>
MCNext == \E a \in Actors : ECall(a) \/ ERet(a) \/ ESilent(a)
MCSpec == MCInit /\ [][MCNext]_mvars

----------------------------------------------------------------------------
Range(s) == {s[i] : i \in DOMAIN s}
Rcvs == {x \in Objs : IsRcv(x)}
Fwds == {x \in Objs : IsFwd(x)}
Done(a, o, s) == act[a].st = "pend" /\ act[a].pc = "done" /\ Op(a).o = o /\ act[a].res.s = s

\* C26: nothing is published that the tensor never was (but the blank of the start)
Genuine == (\E x \in Fwds : TRUE) => \A m \in Range(sent) : m \in Range(was) \/ \E x \in Fwds : m = Blank(x, 2)
\* C26: what an update publishes the tensor was during the update
Fresh == \A a \in Actors : Done(a, "tupd", "t") /\ bp[a].what = "" =>
             LET m == top[1][4] IN \E i \in since[a]..Len(was) : i > 0 /\ m[Len(m)] = was[i]
\* C26: a tensor is announced as what it is, before its data
Announced == \A x \in Fwds : obj[x].h = 1 /\ obj[x].st = "att" =>
                 top[1][1] # <<>> /\ top[1][1][1] = <<gens[obj[x].g].rows>> /\ top[1][2][1] = <<gens[obj[x].g].cols>> /\ top[1][3][1] = <<Code(Spec_(x).dt)>>
\* C26: forwarding does not change the tensor, and nothing is published otherwise
Passive == [][\A g \in DOMAIN gens : gens'[g].data # gens[g].data => \E a \in Actors : act'[a] # act[a] /\ Pend(a, "start") /\ ~IsFwd(X(a))]_mvars
Still == [][top' # top => \E a \in Actors : Publishes(a) \/ (Pend(a, "start") /\ Op(a).o = "tp")]_mvars

\* C27: the shared tensor is what some message said (or what it was in the beginning)
Faithful == \A x \in Rcvs : obj[x].st = "run" =>
                LET d == gens[obj[x].g].data n == Size(x) IN
                \/ \E m \in Range(sent) : Len(m) = n /\ d = Conv(x, m)
                \/ d = [k \in 1..n |-> 0] \/ d = [k \in 1..n |-> NaN]
\* C27: it has the shape and the type that were announced
Shaped == \A x \in Rcvs : obj[x].st = "run" => LET g == gens[obj[x].g] IN g.rows = sub[x].rows /\ g.cols = sub[x].cols /\ g.dt = sub[x].dt /\ Len(g.data) = Len(sub[x].mir)
Fixed == [][\A x \in Rcvs : sub[x].rows >= 0 => sub'[x].rows = sub[x].rows /\ (sub[x].dt >= 0 => sub'[x].dt = sub[x].dt)]_mvars
\* C27: it does not change but when it is updated, and not once the receiver is closed
Calm == [][\A x \in Rcvs : obj[x].g # 0 /\ gens'[obj[x].g].data # gens[obj[x].g].data =>
              obj[x].st = "run" /\ \E a \in Actors : X(a) = x /\ Pend(a, "start") /\ Op(a).o = "fupd"]_mvars
\* C27: what was announced and not yet known makes running fail, and not otherwise
Ready == [][\A a \in Actors : Pend(a, "start") /\ Op(a).o = "frun" /\ obj[X(a)].st = "sub" /\ act'[a].pc # "start" =>
              (act'[a].pc = "make" => Informed(X(a))) /\ (Informed(X(a)) /\ Sane(X(a)) => act'[a].pc = "make")]_mvars
\* C27: closed receivers subscribe to nothing
Gone == \A x \in Rcvs : obj[x].st = "closed" => sub[x].on = {} /\ ~(\E g \in DOMAIN gens : obj[x].g = g /\ gens[g].run)
\* end to end: the mirrored tensor is something the other one was
Mirrored == World \in {"both", "both2"} => \A x \in Rcvs : obj[x].st = "run" => gens[obj[x].g].data \in Range(was) \cup {<<0, 0>>, <<NaN, NaN>>}
Exclusive == \A g \in DOMAIN gens : gens[g].sem \in {0, 1}
=============================================================================
