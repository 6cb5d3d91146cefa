----------------------------- MODULE StringTensor -----------------------------
(***************************************************************************)
(* String tensors: a tensor with one row whose elements are strings        *)
(* (numbers that identify them; 0 is the empty string).  Their lifecycle   *)
(* is that of a tensor - a server that runs once, a client that attaches   *)
(* when it is run - and the operations are translated to those of Tensor,  *)
(* where they mean the same.  Plain tensors may exist, too.                *)
(***************************************************************************)
EXTENDS Tensor

IsStr(x) == x # 0 /\ Spec_(x).k \in {"sts", "stc"}
MaxChars == 1024
StrLen(id) == SC.strs[id + 1]
\* seen from Python, strings are text, and lists to be read into are not empty
Python == "text" \in DOMAIN SC
Text(id) == Python => SC.text[id + 1]

Args(op) == SubSeq(op.a, 2, Len(op.a))      \* of a write: the strings
ListWrite(op) == op.o \in {"ws", "wl"}
Encodable(op) == \A i \in DOMAIN Args(op) : StrLen(Args(op)[i]) <= MaxChars

\* the operation of a tensor that a call means
Means(x, op) ==
    CASE op.o = "run" /\ ~IsSrv(x) -> [op EXCEPT !.o = IF obj[x].st = "att" THEN "again" ELSE "attach"]
      [] OTHER -> op

SCall(a, op) == Call(a, IF IsStr(op.x) THEN Means(op.x, op) ELSE op)

----------------------------------------------------------------------------
SWritten(g, op) == [k \in DOMAIN gens[g].data |->
                      LET p == op.a[1] IN IF k > p /\ k <= p + Len(Args(op)) THEN Args(op)[k - p] ELSE gens[g].data[k]]
SRead(g, op) == IF op.o = "rs" THEN <<gens[g].data[op.a[1] + 1]>> ELSE [k \in 1..op.a[2] |-> gens[g].data[op.a[1] + k]]
Count_(op) == CASE op.o = "wl" -> Len(Args(op)) [] op.o = "rl" -> op.a[2] [] OTHER -> 1

StrReadWrite(a) ==
    LET x == X(a) g == obj[x].g op == Op(a)
        fits == Fits(g, 0, op.a[1], 1, Count_(op)) /\ (ListWrite(op) => Encodable(op))
                /\ (Python /\ op.o = "rl" => op.a[2] > 0)
        after == IF ListWrite(op) /\ fits THEN [gens EXCEPT ![g].data = SWritten(g, op)] ELSE gens
        res == IF ~fits THEN [s |-> "f", v |-> <<>>]
               ELSE IF ListWrite(op) THEN [s |-> "t", v |-> <<>>]
               ELSE IF \E i \in DOMAIN SRead(g, op) : ~Text(SRead(g, op)[i]) THEN [s |-> "exc", v |-> <<>>]
               ELSE [s |-> "t", v |-> SRead(g, op)]
    IN
    /\ Pend(a, "start") /\ op.o \in {"ws", "wl", "rs", "rl"}
    /\ IF ~Active(x)
       THEN /\ act' = Finish(a, IF obj[x].st = "none" THEN "none" ELSE "f", <<>>)
            /\ UNCHANGED gens
       ELSE IF ~Spec_(x).safe
       THEN /\ gens' = after
            /\ act' = Finish(a, res.s, res.v)
       ELSE \/ /\ gens[g].sem = 0 \/ ~fits
               /\ act' = Finish(a, "f", <<>>)
               /\ UNCHANGED gens
            \/ /\ gens[g].sem > 0
               /\ gens' = [after EXCEPT ![g].sem = @ - 1]
               /\ act' = [act EXCEPT ![a].pc = "unlock", ![a].g = g, ![a].res = res]
    /\ UNCHANGED <<sid, cur, dirty, obj>>

\* nothing is touched by looking
StrInspect(a) ==
    LET x == X(a) op == Op(a)
        known == IsSrv(x) \/ obj[x].st = "att"
        cols == IF IsSrv(x) THEN Spec_(x).cols ELSE gens[obj[x].g].cols IN
    /\ Pend(a, "start")
    /\ op.o \in {"len", "shm", "raw", "issrv", "again"} \/ (op.o = "ncl" /\ ~IsSrv(x))
    /\ act' = IF obj[x].st = "none" THEN Finish(a, "none", <<>>)
              ELSE CASE op.o = "issrv" -> Finish(a, IF IsSrv(x) THEN "t" ELSE "f", <<>>)
                     [] op.o = "again" -> Finish(a, "ok", <<1, cols>>)
                     [] op.o = "ncl" -> Finish(a, "ok", <<-1>>)
                     [] ~known -> Finish(a, "any", <<>>)
                     [] op.o = "raw" -> Finish(a, "ok", <<256, cols>>)
                     [] OTHER -> Finish(a, "ok", <<cols>>)
    /\ UNCHANGED <<sid, gens, cur, dirty, obj>>

\* a server that runs does not run again
StrSilent(a) ==
    IF act[a].st = "pend" /\ IsStr(X(a)) /\ (Op(a).o \in {"ws", "wl", "rs", "rl", "len", "shm", "raw", "issrv", "again"} \/ (Op(a).o = "ncl" /\ ~IsSrv(X(a))))
    THEN StrReadWrite(a) \/ StrInspect(a) \/ Unlock(a) \/ WildStep(a)
    ELSE Silent(a)

=============================================================================
