------------------------------ MODULE TensorDict ------------------------------
(***************************************************************************)
(* The tensor dictionary: a tensor whose rows are divided into named       *)
(* blocks.  A dictionary is a view of the tensor (SharedView) filled with  *)
(* NaN, together with the names and dimensions of the blocks; accesses to  *)
(* blocks mean accesses to the view.  A server publishes names and         *)
(* dimensions at the end of its run; a client's run ends when it knows     *)
(* them.                                                                   *)
(***************************************************************************)
EXTENDS SharedView

VARIABLES dd,       \* dictionary -> the names and dimensions it knows
          pub       \* the generations whose names and dimensions are there: [g, names, dims]

dvars == <<vvars, dd, pub>>

NaN == -99998
NoNames == [names |-> <<>>, dims |-> <<>>]

DInitWith(s) ==
    /\ VInitWith(s)
    /\ dd = [x \in 1..Len(Scenarios[s].objs) |-> NoNames]
    /\ pub = {}

----------------------------------------------------------------------------
(* what calls mean *)

Sum(s, n) == LET F[i \in 0..n] == IF i = 0 THEN 0 ELSE F[i - 1] + s[i] IN F[n]
Known(x, name) == \E i \in DOMAIN dd[x].names : dd[x].names[i] = name
Index(x, name) == CHOOSE i \in DOMAIN dd[x].names : dd[x].names[i] = name
First(x, name) == Sum(dd[x].dims, Index(x, name) - 1)
Dim(x, name) == dd[x].dims[Index(x, name)]

\* dw: name, first value, step, rows, columns, kind of data, whether to retry
Means(x, op) ==
    CASE op.o = "new" -> [op EXCEPT !.a = <<1, NaN, 0>>]
      [] op.o = "dw" -> IF Known(x, op.a[1])
                        THEN [op EXCEPT !.o = IF op.a[7] = 1 THEN "vwr" ELSE "vw",
                                        !.a = <<First(x, op.a[1]), 0, op.a[4], op.a[5], op.a[2], op.a[3],
                                                IF op.a[4] > Dim(x, op.a[1]) THEN 8 ELSE op.a[6]>>]
                        ELSE [op EXCEPT !.o = "vw", !.a = <<0, 0, 1, 1, 0, 0, 8>>]
      [] op.o = "ds" -> [op EXCEPT !.o = "sa", !.a = <<1, op.a[1]>>]
      [] OTHER -> op

DCall(a, op) ==
    /\ VCall(a, IF IsDict(op.x) THEN Means(op.x, op) ELSE op)
    /\ dd' = IF IsDict(op.x) /\ op.o = "new" /\ IsSrv(op.x) /\ obj[op.x].st = "none"
             THEN [dd EXCEPT ![op.x] = [names |-> SubSeq(op.a, 2, op.a[1] + 1), dims |-> SubSeq(op.a, op.a[1] + 2, Len(op.a))]]
             ELSE IF IsDict(op.x) /\ op.o = "new" /\ obj[op.x].st = "none" THEN [dd EXCEPT ![op.x] = NoNames]
             ELSE dd
    /\ UNCHANGED pub
DRet(a, s, v) == VRet(a, s, v) /\ UNCHANGED <<dd, pub>>

----------------------------------------------------------------------------
Published(g) == \E p \in pub : p.g = g

DTell(a) ==
    /\ ph[a] = "tell"
    /\ pub' = pub \cup {[g |-> obj[X(a)].g, names |-> dd[X(a)].names, dims |-> dd[X(a)].dims]}
    /\ ph' = [ph EXCEPT ![a] = ""]
    /\ UNCHANGED <<vars, vw, dd>>
DLook(a) ==
    LET g == obj[X(a)].g IN
    /\ ph[a] = "look" /\ Pend(a, "done") /\ Published(g)
    /\ LET p == CHOOSE q \in pub : q.g = g IN dd' = [dd EXCEPT ![X(a)] = [names |-> p.names, dims |-> p.dims]]
    /\ ph' = [ph EXCEPT ![a] = ""]
    /\ UNCHANGED <<vars, vw, pub>>

\* a block of the mirror, the names, the dimensions
DLocal(a) ==
    LET x == X(a) op == Op(a) v == vw[x] IN
    /\ Pend(a, "start") /\ op.o \in {"dg", "dnames", "ddims"}
    /\ act' = IF obj[x].st = "none" THEN Finish(a, "none", <<>>)
              ELSE IF op.o = "dg"
              THEN IF v.mir = <<>> \/ ~Known(x, op.a[1]) THEN Finish(a, "exc", <<>>)
                   ELSE Finish(a, "ok", [k \in 1..(Dim(x, op.a[1]) * v.cols) |-> v.mir[First(x, op.a[1]) * v.cols + k]])
              ELSE IF dd[x].names = <<>> THEN Finish(a, "exc", <<>>)
              ELSE Finish(a, "ok", IF op.o = "dnames" THEN dd[x].names ELSE dd[x].dims)
    /\ UNCHANGED <<sid, gens, cur, dirty, obj, vw, ph, dd, pub>>

DSilent(a) == (VSilent(a) /\ UNCHANGED <<dd, pub>>) \/ DTell(a) \/ DLook(a)
              \/ (IF act[a].st = "pend" /\ IsDict(X(a)) THEN DLocal(a) ELSE FALSE)

DBlocked(a) == VBlocked(a) \/ (ph[a] = "look" /\ Pend(a, "done") /\ ~Published(obj[X(a)].g))
DStuck(S) == (\A a \in S : DBlocked(a)) /\ UNCHANGED dvars

=============================================================================
