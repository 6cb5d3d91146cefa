------------------------------- MODULE PyTensor -------------------------------
(***************************************************************************)
(* Tensors as seen from Python: the operations of Tensor and StringTensor, *)
(* and arbitrary arrays.  An array is a window of a buffer of elements:    *)
(* element (i, j) is item off + i * s0 + j * s1.  Writing it transfers     *)
(* exactly these elements, reading changes exactly these - or the call is  *)
(* refused, and nothing changes.  What must be refused and what must not   *)
(* follows from what the array is.                                         *)
(***************************************************************************)
EXTENDS StringTensor

\* an array operation's arguments
A_(op) == LET p == op.a IN
    [row |-> p[1], col |-> p[2], n |-> p[3], m |-> p[4], v |-> p[5], st |-> p[6],
     dt |-> p[7],               \* element type of the array: 0..3 as the tensor's, others are foreign
     nd |-> p[8],               \* dimensions
     off |-> p[9], s0 |-> p[10], s1 |-> p[11], len |-> p[12],
     mis |-> p[13],             \* bytes by which the buffer is misaligned
     part |-> p[14],            \* bytes by which a stride is no multiple of the item size
     wrt |-> p[15]]             \* writable

Plain(r) == r.dt < 4 /\ r.nd = 2 /\ r.part = 0
Buffer(r) == [k \in 1..r.len |-> Enc(r.dt, r.v + r.st * (k - 1))]
Item(r, i, j) == r.off + i * r.s0 + j * r.s1 + 1
Seen(r) == IF Plain(r) THEN Buffer(r) ELSE <<1>>   \* the buffer, or that it did not change

MustRefuse(x, op) ==
    LET r == A_(op) IN \/ r.dt # Spec_(x).dt \/ r.nd # 2 \/ r.part # 0
                       \/ op.o = "ar" /\ r.wrt = 0
MustTransfer(x, op) ==
    LET r == A_(op) IN /\ ~MustRefuse(x, op)
                       /\ r.n > 0 /\ r.m > 0 /\ r.mis = 0 /\ r.s0 > 0 /\ r.s1 > 0
                       /\ r.n = 1 \/ r.m = 1 \/ (IF Spec_(x).lay = 1 THEN r.s0 >= r.s1 ELSE r.s0 <= r.s1)

ArrWritten(g, r) ==
    LET b == Buffer(r) IN
    [k \in DOMAIN gens[g].data |->
        LET i == ((k - 1) \div gens[g].cols) - r.row
            j == ((k - 1) % gens[g].cols) - r.col IN
        IF i >= 0 /\ i < r.n /\ j >= 0 /\ j < r.m THEN b[Item(r, i, j)] ELSE gens[g].data[k]]
ArrRead(g, r) ==
    [k \in 1..r.len |->
        IF \E i \in 0..(r.n - 1), j \in 0..(r.m - 1) : Item(r, i, j) = k
        THEN LET ij == CHOOSE q \in (0..(r.n - 1)) \X (0..(r.m - 1)) : Item(r, q[1], q[2]) = k
             IN gens[g].data[At(g, r.row + ij[1], r.col + ij[2])]
        ELSE Buffer(r)[k]]

ArrReadWrite(a) ==
    LET x == X(a) g == obj[x].g op == Op(a) r == A_(op)
        fits == Fits(g, r.row, r.col, r.n, r.m)
        sure == MustTransfer(x, op)
        after == IF op.o = "aw" THEN [gens EXCEPT ![g].data = ArrWritten(g, r)] ELSE gens
        res == [s |-> "t", v |-> IF op.o = "aw" THEN Seen(r) ELSE ArrRead(g, r)]
    IN
    /\ Pend(a, "start") /\ op.o \in {"aw", "ar"}
    /\ IF obj[x].st = "none" THEN act' = Finish(a, "none", <<>>) /\ UNCHANGED gens
       ELSE \/ \* refused
               /\ \/ MustRefuse(x, op) \/ ~sure \/ ~Active(x)
                  \/ IF Active(x) THEN ~fits \/ (Spec_(x).safe /\ gens[g].sem = 0) ELSE TRUE
               /\ \/ act' = Finish(a, "f", Seen(r))
                  \/ ~sure /\ act' = Finish(a, "exc", Seen(r))
               /\ UNCHANGED gens
            \/ \* refused while the tensor is held
               /\ Active(x) /\ ~MustRefuse(x, op) /\ Spec_(x).safe
               /\ ~fits
               /\ gens[g].sem > 0
               /\ gens' = [gens EXCEPT ![g].sem = @ - 1]
               /\ act' = [act EXCEPT ![a].pc = "unlock", ![a].g = g, ![a].res = [s |-> "f", v |-> Seen(r)]]
            \/ /\ Active(x) /\ ~MustRefuse(x, op)
               /\ fits
               /\ IF Spec_(x).safe
                  THEN /\ gens[g].sem > 0
                       /\ gens' = [after EXCEPT ![g].sem = @ - 1]
                       /\ act' = [act EXCEPT ![a].pc = "unlock", ![a].g = g, ![a].res = res]
                  ELSE /\ gens' = after
                       /\ act' = Finish(a, res.s, res.v)
    /\ UNCHANGED <<sid, cur, dirty, obj>>

PySilent(a) ==
    IF act[a].st = "pend" /\ Op(a).o \in {"aw", "ar"} /\ act[a].pc = "start" /\ X(a) # 0
    THEN ArrReadWrite(a) \/ WildStep(a) ELSE StrSilent(a)

=============================================================================
