------------------------------ MODULE SharedView ------------------------------
(***************************************************************************)
(* The Python shared-data view: a tensor's server or client together with  *)
(* a local mirror of the whole tensor, through which it is read and        *)
(* written, and possibly a second mirror (on the GPU) that is copied from  *)
(* and to the first.                                                       *)
(* Its lifecycle is that of the underlying server or client (Tensor);      *)
(* running a server with a fill value ends when the fill was written.      *)
(***************************************************************************)
EXTENDS Tensor

VARIABLES vw,       \* view -> its mirrors, their shape, and how it was made
          ph        \* actor -> what is left to do of running a view

vvars == <<vars, vw, ph>>

IsView(x) == x # 0 /\ Spec_(x).k \in {"vws", "vwc", "dcs", "dcc"}
IsDict(x) == x # 0 /\ Spec_(x).k \in {"dcs", "dcc"}     \* (dictionaries, see TensorDict: a view and more)
NoView == [mir |-> <<>>, rows |-> 0, cols |-> 0, has |-> FALSE, fill |-> 0, tor |-> 0, gpu |-> <<>>]

VInitWith(s) ==
    /\ InitWith(s)
    /\ vw = [x \in 1..Len(Scenarios[s].objs) |-> NoView]
    /\ ph = [a \in 1..Len(Scenarios[s].procs) |-> ""]

VCall(a, op) ==
    /\ Call(a, IF IsView(op.x) /\ op.o = "run" /\ ~IsSrv(op.x) THEN [op EXCEPT !.o = "attach"] ELSE op)
    /\ UNCHANGED <<vw, ph>>

VRet(a, s, v) == ph[a] = "" /\ Ret(a, s, v) /\ UNCHANGED <<vw, ph>>

----------------------------------------------------------------------------
(* making, running, closing *)

\* new's arguments: whether there is a fill value, the value, mirrors: 0 numpy, 1 torch, 2 torch and gpu, 3 gpu without torch (none)
Made(op) == [NoView EXCEPT !.has = op.a[1] = 1, !.fill = op.a[2], !.tor = IF op.a[3] = 3 THEN 0 ELSE op.a[3]]
Fresh_(x, rows, cols) ==
    LET v == vw[x]
        m == [k \in 1..(rows * cols) |-> IF v.has THEN Enc(Spec_(x).dt, v.fill) ELSE 0]
    IN [v EXCEPT !.mir = m, !.rows = rows, !.cols = cols, !.gpu = IF v.tor = 2 THEN m ELSE <<>>]

VLife(a) ==
    LET x == X(a) op == Op(a)
        made == op.o = "new" /\ Pend(a, "start") /\ obj[x].st = "none" /\ obj'[x].st # "none"
        served == op.o = "run" /\ Pend(a, "start") /\ act'[a].res.s = "ok"
        joined == op.o = "attach" /\ Pend(a, "alocked") /\ obj'[x].st = "att"
    IN
    /\ ph[a] \in {"", "look"}
    /\ Silent(a)
    /\ vw' = IF made THEN [vw EXCEPT ![x] = Made(op)]
             ELSE IF served THEN [vw EXCEPT ![x] = Fresh_(x, Spec_(x).rows, Spec_(x).cols)]
             ELSE IF joined THEN [vw EXCEPT ![x] = Fresh_(x, gens[obj'[x].g].rows, gens[obj'[x].g].cols)]
             ELSE vw
    /\ ph' = IF served /\ vw[x].has THEN [ph EXCEPT ![a] = "fill"]
             ELSE IF joined /\ IsDict(x) THEN [ph EXCEPT ![a] = "look"] ELSE ph
Then(x) == IF IsDict(x) THEN "tell" ELSE ""

\* the fill value is written by whoever runs the server, before it returns
VFill(a) ==
    LET x == X(a) g == obj[x].g
        filled == [gens EXCEPT ![g].data = vw[x].mir] IN
    /\ ph[a] = "fill"
    /\ IF Spec_(x).safe
       THEN /\ gens[g].sem > 0
            /\ gens' = [filled EXCEPT ![g].sem = @ - 1]
            /\ ph' = [ph EXCEPT ![a] = "filled"]
       ELSE /\ gens' = filled
            /\ ph' = [ph EXCEPT ![a] = Then(x)]
    /\ UNCHANGED <<sid, cur, dirty, obj, act, vw>>
VFilled(a) ==
    /\ ph[a] = "filled"
    /\ gens' = [gens EXCEPT ![obj[X(a)].g].sem = @ + 1]
    /\ ph' = [ph EXCEPT ![a] = Then(X(a))]
    /\ UNCHANGED <<sid, cur, dirty, obj, act, vw>>

----------------------------------------------------------------------------
(* reading, writing, synchronising *)

Writes == {"vw", "vwr", "vs", "vsr"}        \* block, block (retry), scalar, scalar (retry)
Reads == {"vr", "vrr", "vrs", "vrsr"}
Synchs == {"sy", "syr", "sa", "tz"}         \* block, block (retry), all, zero everything
ViewOps == Writes \cup Reads \cup Synchs
Scalar(op) == op.o \in {"vs", "vsr", "vrs", "vrsr"}
Retries(op) == op.o \in {"vwr", "vsr", "vrr", "vrsr", "syr", "tz"} \/ (op.o = "sa" /\ op.a[2] = 1)
Loads(op) == op.o \in Reads \/ (op.o \in {"sy", "syr"} /\ op.a[5] = 1) \/ (op.o = "sa" /\ op.a[1] = 1)

Block(x, op) ==
    CASE op.o \in {"sa", "tz"} -> [r |-> 0, c |-> 0, n |-> vw[x].rows, m |-> vw[x].cols]
      [] Scalar(op) -> [r |-> op.a[1], c |-> op.a[2], n |-> 1, m |-> 1]
      [] OTHER -> [r |-> op.a[1], c |-> op.a[2], n |-> op.a[3], m |-> op.a[4]]
InView(x, b) == /\ b.r >= 0 /\ b.c >= 0 /\ b.r < vw[x].rows /\ b.c < vw[x].cols
                /\ b.n > 0 /\ b.m > 0 /\ b.r + b.n <= vw[x].rows /\ b.c + b.m <= vw[x].cols
Flat(op) == IF op.o \in {"vw", "vwr"} THEN op.a[7] >= 8 ELSE IF op.o \in {"vr", "vrr"} THEN op.a[5] >= 8
            ELSE IF op.o \in {"vs", "vsr"} /\ Len(op.a) > 3 THEN op.a[4] >= 8 ELSE FALSE   \* data that is not two-dimensional, or no array

Within(x, b, k) == LET i == (k - 1) \div vw[x].cols j == (k - 1) % vw[x].cols IN
                   i >= b.r /\ i < b.r + b.n /\ j >= b.c /\ j < b.c + b.m
\* the mirror with the operation's data in it
Put(x, op, b) ==
    [k \in DOMAIN vw[x].mir |->
        IF ~Within(x, b, k) THEN vw[x].mir[k]
        ELSE LET i == (k - 1) \div vw[x].cols j == (k - 1) % vw[x].cols IN
             CASE op.o \in {"vs", "vsr"} -> Enc(Spec_(x).dt, op.a[3])
               [] op.o \in {"vw", "vwr"} -> Enc(Spec_(x).dt, op.a[5] + op.a[6] * ((i - b.r) * b.m + (j - b.c)))
               [] op.o = "tz" -> 0
               [] OTHER -> vw[x].mir[k]]
Merge(x, b, from, into) == [k \in DOMAIN into |-> IF Within(x, b, k) THEN from[k] ELSE into[k]]
Values(x, op, b, mir) ==
    IF op.o \in Reads
    THEN [k \in 1..(b.n * b.m) |-> mir[(b.r + ((k - 1) \div b.m)) * vw[x].cols + b.c + ((k - 1) % b.m) + 1]]
    ELSE <<>>

VOp(a) ==
    LET x == X(a) g == obj[x].g op == Op(a) b == Block(x, op)
        put == Put(x, op, b)
        Set(m) == [vw EXCEPT ![x].mir = m, ![x].gpu = IF op.o = "tz" /\ vw[x].tor = 2 THEN [k \in DOMAIN @ |-> 0] ELSE @]
        Fails(s) == /\ act' = Finish(a, s, <<>>)
                    /\ UNCHANGED gens
    IN
    /\ Pend(a, "start") /\ op.o \in ViewOps
    /\ IF obj[x].st = "none" THEN Fails("none") /\ UNCHANGED vw
       ELSE IF vw[x].mir = <<>> \/ Flat(op)
       THEN (\E s \in {"f", "exc"} : Fails(s)) /\ UNCHANGED vw
       ELSE IF ~InView(x, b)
       THEN /\ \E s \in {"f", "exc"} : Fails(s)
            /\ \/ UNCHANGED vw
               \* (the mirror is a numpy array, where -1 is the last row)
               \/ /\ op.o = "vs" /\ b.r < vw[x].rows /\ b.c < vw[x].cols /\ b.r >= -vw[x].rows /\ b.c >= -vw[x].cols
                  /\ vw' = [vw EXCEPT ![x].mir[((b.r + vw[x].rows) % vw[x].rows) * vw[x].cols + ((b.c + vw[x].cols) % vw[x].cols) + 1] = Enc(Spec_(x).dt, op.a[3])]
       ELSE IF ~Active(x)
       THEN /\ Fails(IF op.o = "tz" THEN "ok" ELSE "f")
            /\ vw' = Set(put) \/ UNCHANGED vw
       ELSE \/ /\ Spec_(x).safe /\ gens[g].sem = 0 /\ ~Retries(op)
               /\ Fails("f")
               /\ vw' = Set(put) \/ UNCHANGED vw
            \/ LET loaded == Merge(x, b, gens[g].data, vw[x].mir)
                   after == IF Loads(op) THEN gens ELSE [gens EXCEPT ![g].data = Merge(x, b, put, gens[g].data)]
                   res == [s |-> IF op.o = "tz" THEN "ok" ELSE "t", v |-> Values(x, op, b, loaded)] IN
               /\ vw' = Set(IF Loads(op) THEN loaded ELSE put)
               /\ IF Spec_(x).safe
                  THEN /\ gens[g].sem > 0
                       /\ gens' = [after EXCEPT ![g].sem = @ - 1]
                       /\ act' = [act EXCEPT ![a].pc = "unlock", ![a].g = g, ![a].res = res]
                  ELSE gens' = after /\ act' = Finish(a, res.s, res.v)
    /\ UNCHANGED <<sid, cur, dirty, obj, ph>>

\* the mirrors themselves
VLocal(a) ==
    LET x == X(a) op == Op(a) v == vw[x] cell == op.a[1] * v.cols + op.a[2] + 1 IN
    /\ Pend(a, "start") /\ op.o \in {"mir", "tmir", "mset", "gget", "gset", "gsy", "has", "isrun"}
    /\ IF obj[x].st = "none" THEN act' = Finish(a, "none", <<>>) /\ UNCHANGED vw
       ELSE IF op.o = "has" THEN act' = Finish(a, "ok", <<IF v.gpu = <<>> THEN 0 ELSE 1, IF v.tor = 0 THEN 0 ELSE 1>>) /\ UNCHANGED vw
       \* running: from run on, until closed
       ELSE IF op.o = "isrun" THEN act' = Finish(a, IF obj[x].st \in {"run", "att"} THEN "t" ELSE "f", <<>>) /\ UNCHANGED vw
       ELSE IF op.o \in {"gget", "gset", "gsy"} /\ v.gpu = <<>> THEN act' = Finish(a, "exc", <<>>) /\ UNCHANGED vw
       ELSE IF v.mir = <<>> \/ (op.o = "tmir" /\ v.tor = 0) THEN act' = Finish(a, "exc", <<>>) /\ UNCHANGED vw
       ELSE /\ act' = Finish(a, "ok", CASE op.o \in {"mir", "tmir"} -> v.mir [] op.o = "gget" -> v.gpu [] OTHER -> <<>>)
            /\ vw' = CASE op.o = "mset" -> [vw EXCEPT ![x].mir[cell] = Enc(Spec_(x).dt, op.a[3])]
                       [] op.o = "gset" -> [vw EXCEPT ![x].gpu[cell] = Enc(Spec_(x).dt, op.a[3])]
                       [] op.o = "gsy" -> IF op.a[1] = 1 THEN [vw EXCEPT ![x].mir = v.gpu] ELSE [vw EXCEPT ![x].gpu = v.mir]
                       [] OTHER -> vw
    /\ UNCHANGED <<sid, gens, cur, dirty, obj, ph>>

\* only servers know the number of clients
VCount(a) == /\ Pend(a, "start") /\ Op(a).o = "ncl" /\ ~IsSrv(X(a))
             /\ act' = Finish(a, IF obj[X(a)].st = "none" THEN "none" ELSE "exc", <<>>)
             /\ UNCHANGED <<sid, gens, cur, dirty, obj, vw, ph>>

VSilent(a) ==
    IF act[a].st = "pend" /\ IsView(X(a))
    THEN (Op(a).o # "isrun" /\ VLife(a)) \/ VFill(a) \/ VFilled(a) \/ VOp(a) \/ VLocal(a) \/ VCount(a)
    ELSE Silent(a) /\ UNCHANGED <<vw, ph>>

VBlocked(a) ==
    \/ ph[a] = "" /\ Blocked(a)
    \/ ph[a] = "fill" /\ gens[obj[X(a)].g].sem = 0
    \/ /\ IsView(X(a)) /\ Pend(a, "start") /\ Op(a).o \in ViewOps /\ Retries(Op(a))
       /\ obj[X(a)].st # "none" /\ Active(X(a)) /\ Spec_(X(a)).safe /\ gens[obj[X(a)].g].sem = 0
VStuck(S) == (\A a \in S : VBlocked(a)) /\ UNCHANGED vvars

=============================================================================
