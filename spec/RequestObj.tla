----------------------------- MODULE RequestObj -----------------------------
(* Requests and arrays as containers: the sequential specification of their operations.
   The state has two requests r[1], r[2] and two arrays a[1], a[2]; Apply(st, op) is the state after op and what
   it returns: <<"none">>, <<"null">>, <<"bool", b>> or <<"val", v>>.                                        *)
EXTENDS Codec

NewReq == [id |-> <<0, 0, 0, 0>>, n |-> <<>>, a |-> <<>>]
Empty == [r |-> <<NewReq, NewReq>>, a |-> <<<<>>, <<>>>>]
U == [t |-> TUndef, b |-> <<>>]
ArrV(s) == [t |-> TArr, e |-> s]

Find(args, n) == LET S == {i \in 1..Len(args) : args[i].n = n} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
PutArg(args, n, v) == LET i == Find(args, n) IN IF i = 0 THEN Append(args, [n |-> n, v |-> v]) ELSE [args EXCEPT ![i].v = v]
DelArg(args, n) == SelectSeq(args, LAMBDA d : d.n # n)

\* change a value through the pointer a getter returned: same type, arrays get an element more
Mutated(old, v) == IF old.t = TArr THEN ArrV(Append(old.e, v)) ELSE IF old.t = v.t THEN v ELSE old

None == <<"none">>
Null == <<"null">>
Val(v) == <<"val", v>>

WithR(st, k, x) == [st EXCEPT !.r[k] = x]
WithA(st, k, x) == [st EXCEPT !.a[k] = x]
Res(st, ret) == [st |-> st, ret |-> ret]

Apply(st, op) ==
    LET k == op.k
        R == st.r[k]
        A == st.a[k]
        i == IF "i" \in DOMAIN op THEN op.i + 1 ELSE 0           \* positions count from 0 outside
        at == IF "n" \in DOMAIN op THEN Find(R.a, op.n) ELSE 0
    IN
    CASE op.o = "name"  -> Res(WithR(st, k, [R EXCEPT !.n = op.n]), None)
      [] op.o = "id"    -> Res(WithR(st, k, [R EXCEPT !.id = op.b]), None)
      [] op.o \in {"set", "steal", "setref", "emplace"} ->
                            Res(WithR(st, k, [R EXCEPT !.a = PutArg(R.a, op.n, op.v)]), None)
      [] op.o = "setarr" -> Res(WithR(st, k, [R EXCEPT !.a = PutArg(R.a, op.n, ArrV(st.a[op.j]))]), None)
      [] op.o = "del"   -> Res(WithR(st, k, [R EXCEPT !.a = DelArg(R.a, op.n)]), None)
      [] op.o = "get"   -> Res(st, IF at = 0 THEN Null ELSE Val(R.a[at].v))
      \* typed access: null for an absent name or another type
      [] op.o = "gett"  -> Res(st, IF at = 0 THEN Null ELSE IF R.a[at].v.t # op.t THEN Null ELSE Val(R.a[at].v))
      [] op.o = "self"  -> Res(IF at = 0 THEN st ELSE WithR(st, k, [R EXCEPT !.a = PutArg(R.a, op.n, R.a[at].v)]), None)
      \* an argument that is an array is replaced by (a copy of) one of its elements
      [] op.o = "inner" -> Res(IF at = 0 THEN st
                               ELSE IF R.a[at].v.t # TArr THEN st
                               ELSE IF i > Len(R.a[at].v.e) THEN st
                               ELSE WithR(st, k, [R EXCEPT !.a[at].v = R.a[at].v.e[i]]), None)
      [] op.o = "mut"   -> Res(IF at = 0 THEN st ELSE WithR(st, k, [R EXCEPT !.a[at].v = Mutated(R.a[at].v, op.v)]), None)
      [] op.o = "copy"  -> Res(WithR(st, k, st.r[op.j]), None)
      [] op.o = "newr"  -> Res(WithR(st, k, NewReq), None)
      \* decoding replaces everything when it succeeds
      [] op.o = "dec"   -> LET d == DecRequest(op.d, 1, Len(op.d)) IN Res(IF d.used = 0 THEN st ELSE WithR(st, k, d.v), None)
      [] op.o = "apush" -> Res(WithA(st, k, Append(A, op.v)), None)
      [] op.o = "apusha" -> Res(WithA(st, k, Append(A, ArrV(st.a[op.j]))), None)
      [] op.o = "aset"  -> IF i > Len(A) THEN Res(st, <<"bool", FALSE>>) ELSE Res(WithA(st, k, [A EXCEPT ![i] = op.v]), <<"bool", TRUE>>)
      [] op.o = "aseta" -> IF i > Len(A) THEN Res(st, <<"bool", FALSE>>) ELSE Res(WithA(st, k, [A EXCEPT ![i] = ArrV(st.a[op.j])]), <<"bool", TRUE>>)
      [] op.o = "asetnull" -> Res(st, <<"bool", FALSE>>)
      \* element i becomes a copy of element j of the same array, or of the first element inside element i
      [] op.o = "asetown" -> IF i > Len(A) \/ op.j >= Len(A) THEN Res(st, <<"bool", FALSE>>)
                             ELSE Res(WithA(st, k, [A EXCEPT ![i] = A[op.j + 1]]), <<"bool", TRUE>>)
      [] op.o = "ainner" -> IF i > Len(A) THEN Res(st, None)
                            ELSE IF A[i].t # TArr THEN Res(st, None)
                            ELSE IF A[i].e = <<>> THEN Res(st, None)
                            ELSE Res(WithA(st, k, [A EXCEPT ![i] = A[i].e[1]]), None)
      [] op.o = "aget"  -> Res(st, IF i > Len(A) THEN Null ELSE Val(A[i]))
      [] op.o = "anew"  -> Res(WithA(st, k, [x \in 1..op.c |-> U]), None)
      [] op.o = "aclear" -> Res(WithA(st, k, <<>>), None)
      [] op.o = "acopy" -> Res(WithA(st, k, st.a[op.j]), None)
      \* the array becomes a copy of its own element i when that is an array
      [] op.o = "aup"   -> IF i > Len(A) THEN Res(st, None) ELSE IF A[i].t # TArr THEN Res(st, None)
                           ELSE Res(WithA(st, k, A[i].e), None)
      \* element i, an array, becomes a copy of the array it is in
      [] op.o = "adown" -> IF i > Len(A) THEN Res(st, None) ELSE IF A[i].t # TArr THEN Res(st, None)
                           ELSE Res(WithA(st, k, [A EXCEPT ![i] = ArrV(A)]), None)
      [] op.o = "amut"  -> Res(IF i > Len(A) THEN st ELSE WithA(st, k, [A EXCEPT ![i] = Mutated(A[i], op.v)]), None)
      [] op.o = "avcopy" -> \* CopyFrom between elements of the same type
                            IF i > Len(A) \/ op.j >= Len(A) THEN Res(st, None)
                            ELSE IF A[i].t # A[op.j + 1].t THEN Res(st, None)
                            ELSE Res(WithA(st, k, [A EXCEPT ![i] = A[op.j + 1]]), None)
=============================================================================
