---------------------------- MODULE MCRequestObj ----------------------------
(* All sequences of up to Depth container operations over a small alphabet; the container guarantees as action
   properties; every complete sequence with the expected results is printed for replay into the real code. *)
EXTENDS RequestObj, TLC, Json
CONSTANTS Depth, Rich
VARIABLES st, hist, base
vars == <<st, hist, base>>

A == <<97>>
B == <<98>>
I5 == [t |-> 3, b |-> <<5, 0, 0, 0>>]
I6 == [t |-> 3, b |-> <<250, 255, 255, 255>>]
S1 == [t |-> TStr, b |-> <<120, 0, 121>>]
Raw == [t |-> TUndef, b |-> <<1, 2>>]
Nest == ArrV(<<I5, ArrV(<<S1>>)>>)
TwoA == EncRequest([id |-> <<7, 0, 0, 0>>, n |-> B, a |-> <<[n |-> A, v |-> I5], [n |-> B, v |-> S1], [n |-> A, v |-> Raw]>>])

Ops == {[o |-> "set", k |-> 1, n |-> A, v |-> I5], [o |-> "set", k |-> 1, n |-> B, v |-> Nest], [o |-> "set", k |-> 2, n |-> A, v |-> Raw],
        [o |-> "steal", k |-> 1, n |-> A, v |-> S1], [o |-> "del", k |-> 1, n |-> A], [o |-> "del", k |-> 1, n |-> B],
        [o |-> "self", k |-> 1, n |-> A], [o |-> "inner", k |-> 1, n |-> B, i |-> 1], [o |-> "mut", k |-> 1, n |-> A, v |-> I6],
        [o |-> "mut", k |-> 1, n |-> B, v |-> S1], [o |-> "copy", k |-> 1, j |-> 2], [o |-> "copy", k |-> 2, j |-> 1], [o |-> "copy", k |-> 1, j |-> 1],
        [o |-> "dec", k |-> 1, d |-> TwoA], [o |-> "newr", k |-> 1], [o |-> "setarr", k |-> 1, n |-> A, j |-> 1],
        [o |-> "gett", k |-> 1, n |-> A, t |-> 3], [o |-> "gett", k |-> 1, n |-> B, t |-> TArr], [o |-> "name", k |-> 1, n |-> B], [o |-> "id", k |-> 1, b |-> <<1, 2, 3, 4>>]}
AOps == {[o |-> "apush", k |-> 1, v |-> Raw], [o |-> "apush", k |-> 1, v |-> Nest], [o |-> "apusha", k |-> 1, j |-> 1], [o |-> "apusha", k |-> 2, j |-> 1],
         [o |-> "aset", k |-> 1, i |-> 0, v |-> S1], [o |-> "aset", k |-> 1, i |-> 2, v |-> I5], [o |-> "asetnull", k |-> 1, i |-> 0],
         [o |-> "asetown", k |-> 1, i |-> 0, j |-> 0], [o |-> "asetown", k |-> 1, i |-> 1, j |-> 0], [o |-> "ainner", k |-> 1, i |-> 0], [o |-> "aget", k |-> 1, i |-> 1],
         [o |-> "anew", k |-> 1, c |-> 2], [o |-> "aclear", k |-> 1], [o |-> "acopy", k |-> 1, j |-> 2], [o |-> "acopy", k |-> 2, j |-> 1],
         [o |-> "acopy", k |-> 1, j |-> 1], [o |-> "aup", k |-> 1, i |-> 0], [o |-> "adown", k |-> 1, i |-> 0], [o |-> "amut", k |-> 1, i |-> 0, v |-> I6],
         [o |-> "avcopy", k |-> 1, i |-> 0, j |-> 1], [o |-> "aseta", k |-> 1, i |-> 0, j |-> 1]}
Mix == {x \in Ops \cup AOps : x.o \in {"setarr", "set", "copy", "mut", "inner", "apush", "apusha", "amut", "acopy", "aset"}}

\* what is there before the sequence starts
P1 == <<[o |-> "set", k |-> 1, n |-> A, v |-> I5], [o |-> "set", k |-> 1, n |-> B, v |-> Nest], [o |-> "set", k |-> 2, n |-> A, v |-> Raw]>>
P2 == <<[o |-> "apush", k |-> 1, v |-> Nest], [o |-> "apush", k |-> 1, v |-> Raw], [o |-> "apush", k |-> 2, v |-> S1]>>
P3 == P1 \o P2
RECURSIVE Fold(_, _, _)
Fold(s, h, ops) == IF ops = <<>> THEN [st |-> s, h |-> h]
                   ELSE LET x == Apply(s, Head(ops)) IN Fold(x.st, Append(h, <<Head(ops), x.ret, x.st>>), Tail(ops))
Starts == IF Rich THEN {<<>>, P1, P2, P3} ELSE {<<>>, P3}

Init == \E p \in Starts : LET x == Fold(Empty, <<>>, p) IN st = x.st /\ hist = x.h /\ base = Len(p)
Do(op) == LET x == Apply(st, op) IN st' = x.st /\ hist' = Append(hist, <<op, x.ret, x.st>>) /\ UNCHANGED base
All(S) == \A i \in base + 1..Len(hist) : hist[i][1] \in S
Next == /\ Len(hist) < base + Depth
        /\ \/ All(Ops) /\ \E op \in Ops : Do(op)
           \/ All(AOps) /\ \E op \in AOps : Do(op)
           \/ Rich /\ All(Mix) /\ \E op \in Mix : Do(op)
Spec == Init /\ [][Next]_vars

\* an operation on one object never affects the other object (copies are independent)
Independent == [][LET op == hist'[Len(hist')][1] IN
    /\ \A k \in 1..2 : (st'.r[k] # st.r[k] => op.k = k) /\ (st'.a[k] # st.a[k] => op.k = k)]_vars
\* order of the names that stay does not change
OrderKept == [][\A k \in 1..2 : LET n == [i \in 1..Len(st.r[k].a) |-> st.r[k].a[i].n]
                                    m == [i \in 1..Len(st'.r[k].a) |-> st'.r[k].a[i].n]
                                IN hist'[Len(hist')][1].o \in {"set", "steal", "setarr", "mut", "inner", "self"} => IsPrefix(n, m)]_vars
\* sequences made of modelled operations never create duplicate names by themselves
NoDup == (\A i \in 1..Len(hist) : hist[i][1].o # "dec") =>
            \A k \in 1..2 : \A i, j \in 1..Len(st.r[k].a) : st.r[k].a[i].n = st.r[k].a[j].n => i = j
Emit == Len(hist) = base + Depth => PrintT("SEQ " \o ToJson([x \in 1..Len(hist) |-> IF x = Len(hist) THEN hist[x] ELSE <<hist[x][1], hist[x][2]>>]))
=============================================================================
