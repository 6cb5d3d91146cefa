-------------------------------- MODULE MCView --------------------------------
(* SharedView with an environment that calls anything at any time. *)
EXTENDS SharedView, TLC

CONSTANT World

O_(k, proc, rows, cols) ==
    [k |-> k, nm |-> 1, proc |-> proc, dt |-> 2, lay |-> 1, safe |-> TRUE, force |-> FALSE, rows |-> rows, cols |-> cols]
SC_(procs, objs) == [nnames |-> 1, procs |-> procs, objs |-> objs]
All == {<<"vw", <<0, 0, 1, 2, 3, 1, 0>>>>, <<"vw", <<0, 1, 1, 2, 5, 1, 0>>>>, <<"vs", <<0, 1, 8>>>>, <<"vr", <<0, 0, 1, 2, 0>>>>, <<"vrs", <<0, 0>>>>,
        <<"sa", <<1, 0>>>>, <<"sy", <<0, 1, 1, 1, 0>>>>, <<"mset", <<0, 1, 9>>>>, <<"mir", <<>>>>}
Worlds == [
  fill  |-> [sc |-> SC_(<<1, 2>>, <<O_("vws", 1, 1, 2), O_("vwc", 2, 0, 0)>>), max |-> <<5, 4>>, new |-> <<1, 7, 0>>,
             o |-> {<<"vs", <<0, 1, 8>>>>, <<"vr", <<0, 0, 1, 2, 0>>>>, <<"sa", <<1, 0>>>>, <<"vsr", <<0, 0, 4>>>>, <<"close", <<>>>>, <<"run", <<>>>>}],
  data  |-> [sc |-> SC_(<<1, 2>>, <<O_("vws", 1, 1, 2), O_("vwc", 2, 0, 0)>>), max |-> <<5, 5>>, new |-> <<0, 0, 0>>, o |-> All],
  mirror |-> [sc |-> SC_(<<1, 2>>, <<O_("vws", 1, 1, 2), O_("vwc", 2, 0, 0)>>), max |-> <<6, 2>>, new |-> <<1, 7, 2>>,
             o |-> {<<"vs", <<0, 1, 8>>>>, <<"gset", <<0, 0, 6>>>>, <<"gsy", <<0>>>>, <<"gsy", <<1>>>>, <<"gget", <<>>>>, <<"mset", <<0, 1, 9>>>>, <<"sa", <<0, 1>>>>, <<"tz", <<>>>>, <<"vr", <<0, 0, 1, 2, 0>>>>}],
  data2 |-> [sc |-> SC_(<<1, 2, 3>>, <<O_("vws", 1, 1, 2), O_("vwc", 2, 0, 0), O_("vwc", 3, 0, 0)>>), max |-> <<4, 4, 3>>, new |-> <<0, 0, 0>>, o |-> All],
  retry |-> [sc |-> SC_(<<1, 2, 3>>, <<O_("vws", 1, 1, 1), O_("vwc", 2, 0, 0), O_("vwc", 3, 0, 0)>>), max |-> <<4, 4, 4>>, new |-> <<1, 7, 0>>,
             o |-> {<<"vsr", <<0, 0, 4>>>>, <<"vrsr", <<0, 0>>>>, <<"acq", <<>>>>, <<"rel", <<>>>>, <<"sa", <<1, 1>>>>}]]
Wd == Worlds[World]
MCScenarios == <<Wd.sc>>

VARIABLE calls
mvars == <<vvars, calls>>
MCInit == VInitWith(1) /\ calls = [a \in Actors |-> 0]
Mine(a) == {x \in Objs : Spec_(x).proc = Proc(a)}
Menu(x) == IF obj[x].st = "none" THEN {<<"new", Wd.new>>}
           ELSE IF obj[x].st \in {"init", "det"} THEN {<<"run", <<>>>>} ELSE Wd.o
ECall(a) == /\ calls[a] < Wd.max[a]
            /\ \E x \in Mine(a) : \E o \in Menu(x) : VCall(a, [o |-> o[1], x |-> x, a |-> o[2]])
            /\ calls' = [calls EXCEPT ![a] = @ + 1]
ERet(a) == Pend(a, "done") /\ ph[a] = "" /\ act' = [act EXCEPT ![a] = Idle] /\ UNCHANGED <<sid, gens, cur, dirty, obj, vw, ph, calls>>
ESilent(a) == VSilent(a) /\ UNCHANGED <<calls>>
MCNext == \E a \in Actors : ECall(a) \/ ERet(a) \/ ESilent(a)
MCSpec == MCInit /\ [][MCNext]_mvars

----------------------------------------------------------------------------
\* the mirror has the tensor's shape
Shape == \A x \in Objs : IsView(x) /\ Active(x) /\ vw[x].mir # <<>> =>
            LET g == obj[x].g IN vw[x].rows = gens[g].rows /\ vw[x].cols = gens[g].cols /\ DOMAIN vw[x].mir = DOMAIN gens[g].data
Pend_(a, os) == act[a].st = "pend" /\ IsView(X(a)) /\ Op(a).o \in os
\* while a successful operation still has the tensor: the block is the same in the mirror and in the tensor, and it is what was written or read
Same_(a) == LET x == X(a) b == Block(x, Op(a)) IN \A k \in DOMAIN vw[x].mir : Within(x, b, k) => vw[x].mir[k] = gens[act[a].g].data[k]
Faithful == \A a \in Actors : Pend_(a, ViewOps) /\ act[a].pc = "unlock" /\ act[a].res.s \in {"t", "ok"} => Same_(a)
Stored == \A a \in Actors : Pend_(a, {"vs", "vsr"}) /\ act[a].pc = "unlock" =>
            gens[act[a].g].data[Op(a).a[1] * vw[X(a)].cols + Op(a).a[2] + 1] = Op(a).a[3]
\* nothing else changes: outside the block, by failed operations, by loading, by looking
Frame == [][\A g \in DOMAIN gens : \A k \in DOMAIN gens[g].data : gens'[g].data[k] # gens[g].data[k] =>
             \E a \in Actors : act[a].st = "pend" /\ obj[X(a)].g = g /\
                \/ /\ Pend_(a, Writes \cup Synchs) /\ act[a].pc = "start" /\ act'[a].pc # "start" /\ ~Loads(Op(a))
                   /\ act'[a].res.s \in {"t", "ok"} /\ Within(X(a), Block(X(a), Op(a)), k)
                \/ ph[a] = "fill" /\ ph'[a] # "fill"]_mvars
MirrorFrame == [][\A x \in Objs : \A k \in DOMAIN vw[x].mir : k \in DOMAIN vw'[x].mir /\ vw'[x].mir[k] # vw[x].mir[k] =>
                   \E a \in Actors : /\ act[a].st = "pend" /\ X(a) = x
                                     /\ Op(a).o \in {"run", "attach", "mset", "gsy"} \/ (Op(a).o \in ViewOps /\ Within(x, Block(x, Op(a)), k))]_mvars
\* the fill is there before the server's run returns (unless somebody has written since)
Writers == {a \in Actors : Pend_(a, Writes \cup {"sy", "syr", "sa", "tz"})}
Filled == \A a \in Actors : ph[a] = "filled" => LET g == obj[X(a)].g IN \A k \in DOMAIN gens[g].data : gens[g].data[k] = vw[X(a)].fill
FillBeforeReturn == \A a \in Actors : ph[a] # "" => act[a].st = "pend"
Exclusive == \A g \in DOMAIN gens : gens[g].sem \in {0, 1}
\* retrying variants have succeeded when they return while the view is running
Insist == \A a \in Actors : Pend_(a, {"vwr", "vsr", "vrr", "vrsr", "syr"}) /\ act[a].pc = "done" /\ act[a].res.s = "f" => ~Active(X(a)) \/ ~InView(X(a), Block(X(a), Op(a)))
=============================================================================
