------------------------------- MODULE MCBlocks -------------------------------
(* Every block, at every position, of every small tensor: what Tensor says   *)
(* about single reads and writes obeys the laws of property C14.             *)
EXTENDS Tensor, TLC

CONSTANT World     \* the biggest shape

Max == IF World = "blocks4" THEN 4 ELSE 3
BScenarios == [i \in 1..(Max * Max) |->
    [nnames |-> 1, procs |-> <<1>>,
     objs |-> <<[k |-> "srv", nm |-> 1, proc |-> 1, dt |-> 2, lay |-> 1, safe |-> TRUE, force |-> FALSE,
                 rows |-> ((i - 1) \div Max) + 1, cols |-> ((i - 1) % Max) + 1]>>]]

VARIABLE before    \* the tensor before the operation in progress

Boxes(rows, cols) == {<<r, c, n, m>> \in (-1..rows) \X (-1..cols) \X (1..rows + 1) \X (1..cols + 1) : TRUE}

Zero == [k \in DOMAIN gens[1].data |-> 0]
Full == [k \in DOMAIN gens[1].data |-> 99 + k]

Env(a) == \/ obj[1].st = "none" /\ Call(a, [o |-> "new", x |-> 1, a |-> <<>>])
          \/ obj[1].st = "init" /\ Call(a, [o |-> "run", x |-> 1, a |-> <<>>])
          \/ /\ obj[1].st = "run"
             /\ \E b \in Boxes(gens[1].rows, gens[1].cols) :
                   \/ gens[1].data = Zero /\ Call(a, [o |-> "w", x |-> 1, a |-> b \o <<100, 1, 0>>])
                   \/ gens[1].data = Full /\ Call(a, [o |-> "r", x |-> 1, a |-> b \o <<0>>])
Data == IF gens = <<>> THEN <<>> ELSE gens[1].data
BInit == (\E i \in DOMAIN BScenarios : InitWith(i)) /\ before = <<>>
BNext == \/ Env(1) /\ before' = Data
         \/ Silent(1) /\ before' = before
         \/ Pend(1, "done") /\ Ret(1, act[1].res.s, act[1].res.v) /\ before' = before
BSpec == BInit /\ [][BNext]_<<vars, before>>

Done(o) == act[1].pc = "done" /\ act[1].op.o = o
In(i, j, b) == i >= b[1] /\ i < b[1] + b[3] /\ j >= b[2] /\ j < b[2] + b[4]
Inside(b) == \A i \in b[1]..(b[1] + b[3] - 1), j \in b[2]..(b[2] + b[4] - 1) :
                i \in 0..(gens[1].rows - 1) /\ j \in 0..(gens[1].cols - 1)
\* succeeds exactly when the block lies inside
Exactly == Done("w") \/ Done("r") => ((act[1].res.s = "t") <=> Inside(act[1].op.a))
\* changes exactly the addressed elements
Writes == Done("w") => \A i \in 0..(gens[1].rows - 1), j \in 0..(gens[1].cols - 1) :
    LET b == act[1].op.a k == At(1, i, j) IN
    Data[k] = IF act[1].res.s = "t" /\ In(i, j, b) THEN 100 + (i - b[1]) * b[4] + (j - b[2]) ELSE before[k]
\* returns exactly the addressed elements
Reads == Done("r") => LET b == act[1].op.a IN
    /\ Data = before
    /\ IF act[1].res.s = "t"
       THEN /\ Len(act[1].res.v) = b[3] * b[4]
            /\ \A i \in 0..(b[3] - 1), j \in 0..(b[4] - 1) : act[1].res.v[i * b[4] + j + 1] = Data[At(1, b[1] + i, b[2] + j)]
       ELSE act[1].res.v = <<>>
=============================================================================
