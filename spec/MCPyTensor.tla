------------------------------ MODULE MCPyTensor ------------------------------
(* PyTensor with an environment that passes any small array at any time. *)
EXTENDS PyTensor, TLC

CONSTANT World

O_(k, proc, dt, lay, safe, rows, cols) ==
    [k |-> k, nm |-> 1, proc |-> proc, dt |-> dt, lay |-> lay, safe |-> safe, force |-> FALSE, rows |-> rows, cols |-> cols]
SC_(objs) == [nnames |-> 1, procs |-> <<1, 2>>, objs |-> objs]

\* arrays: row col n m v st dt nd off s0 s1 len mis part wrt
Arr == {<<p[1], p[2], n, m, v, 1, dt, nd, off, s[1], s[2], 9, mis, 0, wrt>> :
          p \in {<<0, 0>>, <<1, 0>>}, n \in {1, 2}, m \in {1, 2}, v \in {1}, dt \in {2, 4}, nd \in {2},
          off \in {0, 4}, s \in {<<2, 1>>, <<1, 2>>, <<1, -1>>, <<0, 1>>}, mis \in {0}, wrt \in {0, 1}}
       \cup {<<0, -1, 1, 1, 20, 0, 2, nd, 0, 1, 1, 9, 0, 0, 1>> : nd \in {2, 3}}
InBuffer(p) == LET r == [n |-> p[3], m |-> p[4], off |-> p[9], s0 |-> p[10], s1 |-> p[11]] IN
    \A i \in 0..(r.n - 1), j \in 0..(r.m - 1) : Item(r, i, j) \in 1..p[12]
Apart(p) == LET r == [n |-> p[3], m |-> p[4], off |-> p[9], s0 |-> p[10], s1 |-> p[11]]
                D == (0..(r.n - 1)) \X (0..(r.m - 1)) IN
    \A d, e \in D : d # e => Item(r, d[1], d[2]) # Item(r, e[1], e[2])
Row == SC_(<<O_("srv", 1, 2, 1, TRUE, 2, 2), O_("cli", 2, 2, 1, TRUE, 0, 0)>>)
Col == SC_(<<O_("srv", 1, 2, 0, TRUE, 2, 2), O_("cli", 2, 2, 0, TRUE, 0, 0)>>)
Worlds == [rowm |-> [sc |-> Row, max |-> <<4, 2>>], colm |-> [sc |-> Col, max |-> <<4, 2>>],
           rowm2 |-> [sc |-> Row, max |-> <<3, 3>>], colm2 |-> [sc |-> Col, max |-> <<3, 3>>]]
Wd == Worlds[World]
MCScenarios == <<Wd.sc>>
WArrs == {p \in Arr : InBuffer(p) /\ p[15] = 1}
RArrs == {p \in Arr : InBuffer(p) /\ Apart(p)}

VARIABLE calls
mvars == <<vars, calls>>
MCInit == InitWith(1) /\ calls = [a \in Actors |-> 0]
Mine(a) == {x \in Objs : Spec_(x).proc = Proc(a)}
Menu(x) == IF obj[x].st = "none" THEN {<<"new", <<>>>>}
           ELSE IF obj[x].st = "init" THEN {<<"run", <<>>>>}
           ELSE IF obj[x].st = "det" THEN {<<"attach", <<>>>>}
           ELSE {<<"aw", p>> : p \in WArrs} \cup {<<"ar", p>> : p \in RArrs}
ECall(a) == /\ calls[a] < Wd.max[a]
            /\ \E x \in Mine(a) : \E o \in Menu(x) : SCall(a, [o |-> o[1], x |-> x, a |-> o[2]])
            /\ calls' = [calls EXCEPT ![a] = @ + 1]
ERet(a) == Pend(a, "done") /\ act' = [act EXCEPT ![a] = Idle] /\ UNCHANGED <<sid, gens, cur, dirty, obj, calls>>
ESilent(a) == PySilent(a) /\ UNCHANGED <<calls>>
MCNext == \E a \in Actors : ECall(a) \/ ERet(a) \/ ESilent(a)
MCSpec == MCInit /\ [][MCNext]_mvars

----------------------------------------------------------------------------
Arrays(a) == act[a].st = "pend" /\ Op(a).o \in {"aw", "ar"}
Over(a) == Arrays(a) /\ act[a].pc \in {"unlock", "done"} /\ act[a].res.s # "none"
\* what does not arrive is refused, and the array is as it was
RefusedKeepsArray == \A a \in Actors : Over(a) /\ act[a].res.s \in {"f", "exc"} => act[a].res.v = Seen(A_(Op(a)))
WriteKeepsArray == \A a \in Actors : Over(a) /\ Op(a).o = "aw" => act[a].res.v = Seen(A_(Op(a)))
UnfitRefused == \A a \in Actors : Over(a) /\ MustRefuse(X(a), Op(a)) => act[a].res.s \in {"f", "exc"}
\* the tensor changes by successful writes only, and only within the block
OnlyBlock == [][\A g \in DOMAIN gens : \A k \in DOMAIN gens[g].data : gens'[g].data[k] # gens[g].data[k] =>
               \E a \in Actors : /\ Arrays(a) /\ Op(a).o = "aw" /\ act[a].pc = "start" /\ act'[a].pc # "start" /\ act'[a].res.s = "t"
                                 /\ obj[X(a)].g = g
                                 /\ LET r == A_(Op(a)) i == (k - 1) \div gens[g].cols j == (k - 1) % gens[g].cols IN
                                      i \in r.row..(r.row + r.n - 1) /\ j \in r.col..(r.col + r.m - 1)]_mvars
\* what was written into a block is what an array of another shape of memory reads from it
RoundTrip == \A a \in Actors : Arrays(a) /\ act[a].pc = "unlock" /\ act[a].res.s = "t" =>
    LET r == A_(Op(a)) g == act[a].g b == IF Op(a).o = "aw" THEN Buffer(r) ELSE act[a].res.v IN
    \A i \in 0..(r.n - 1), j \in 0..(r.m - 1) :
       (\A d \in 0..(r.n - 1), e \in 0..(r.m - 1) : Item(r, d, e) = Item(r, i, j) => d = i /\ e = j) =>
       b[Item(r, i, j)] = gens[g].data[At(g, r.row + i, r.col + j)]
Outside == \A a \in Actors : Over(a) /\ Op(a).o = "ar" /\ Plain(A_(Op(a))) =>
    LET r == A_(Op(a)) IN \A k \in 1..r.len : (\A i \in 0..(r.n - 1), j \in 0..(r.m - 1) : Item(r, i, j) # k) => act[a].res.v[k] = Buffer(r)[k]
Typed == \A g \in DOMAIN gens : \A k \in DOMAIN gens[g].data : Enc(gens[g].dt, gens[g].data[k]) = gens[g].data[k]
=============================================================================
