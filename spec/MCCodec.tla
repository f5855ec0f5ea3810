------------------------------ MODULE MCCodec ------------------------------
(* Exhaustive small model of the codec.  A behaviour picks a message, then one way of damaging its bytes;
   the invariants state the codec guarantees on the specification itself, and every (damaged) message with the
   decision of the specification is printed as a test vector for the real code. *)
EXTENDS Codec, TLC, Json, FiniteSetsExt

CONSTANTS Deep,   \* larger message space
          Emit    \* print vectors
VARIABLES kind, msg, bytes, how
vars == <<kind, msg, bytes, how>>

Ints == {[t |-> t, b |-> [i \in 1..IntSize[t] |-> x]] : t \in 1..8, x \in {0, 255}}
        \cup {[t |-> t, b |-> [i \in 1..IntSize[t] |-> i * 17 % 256]] : t \in 1..8}
        \cup {[t |-> t, b |-> [i \in 1..IntSize[t] |-> IF i = IntSize[t] THEN 128 ELSE 0]] : t \in 1..8}
Texts == {<<>>, <<0>>, <<255, 9>>, <<104, 105, 33>>}
Leaves == Ints \cup {[t |-> TStr, b |-> s] : s \in Texts} \cup {[t |-> TUndef, b |-> s] : s \in Texts}
Few == {[t |-> 3, b |-> <<1, 2, 3, 250>>], [t |-> 7, b |-> <<200>>], [t |-> TStr, b |-> <<65>>],
        [t |-> TUndef, b |-> <<>>], [t |-> TUndef, b |-> <<7, 8>>]}
Arr(s) == [t |-> TArr, e |-> s]
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Arrays1 == {Arr(s) : s \in SeqsUpTo(Few, IF Deep THEN 3 ELSE 2)}
Arrays2 == {Arr(<<a>>) : a \in Arrays1} \cup {Arr(<<a, f>>) : a \in {Arr(<<>>), Arr(<<[t |-> 7, b |-> <<200>>]>>)}, f \in Few}
           \cup {Arr(<<Arr(<<Arr(<<f>>)>>)>>) : f \in Few}
Values == Leaves \cup Arrays1 \cup Arrays2
Names == {<<>>, <<97>>, <<97, 98, 0>>}
SmallV == Few \cup {Arr(<<>>), Arr(<<[t |-> 7, b |-> <<200>>], Arr(<<[t |-> TStr, b |-> <<>>]>>)>>)}
Datums == {[n |-> n, v |-> v] : n \in Names, v \in SmallV}
Ids == {<<0, 0, 0, 0>>, <<1, 2, 0, 255>>}
Args == {<<>>} \cup {<<d>> : d \in Datums}
        \cup {<<d, e>> : d \in {x \in Datums : x.n = <<97>>}, e \in {x \in Datums : x.n \in {<<97>>, <<97, 98, 0>>} /\ x.v \in Few}}
Requests == {[id |-> i, n |-> n, a |-> a] : i \in Ids, n \in Names, a \in Args}
\* messages whose encodings are damaged in every position
Victims == {<<"value", v>> : v \in SmallV \cup {Arr(<<[t |-> 7, b |-> <<200>>], [t |-> TStr, b |-> <<65>>]>>), [t |-> 1, b |-> <<1, 2, 3, 4, 5, 6, 7, 8>>], [t |-> 6, b |-> <<1, 2>>]}}
      \cup {<<"datum", d>> : d \in {x \in Datums : x.n = <<97>>}}
      \cup {<<"request", r>> : r \in {x \in Requests : x.n = <<97>> /\ x.id = <<1, 2, 0, 255>> /\ Len(x.a) < 2 /\ (\A k \in 1..Len(x.a) : x.a[k].n = <<97>>)}}
      \cup {<<"request", [id |-> <<9, 9, 9, 9>>, n |-> <<>>, a |-> <<[n |-> <<97>>, v |-> [t |-> 7, b |-> <<200>>]], [n |-> <<97>>, v |-> [t |-> TStr, b |-> <<65>>]]>>]>>}
Subst(x) == {0, 1, 4, 5, 9, 10, 11, 128, 255, (x + 1) % 256, (x + 255) % 256}

Init == /\ how = <<"as is">>
        /\ \/ \E v \in Values : kind = "value" /\ msg = v
           \/ \E d \in Datums : kind = "datum" /\ msg = d
           \/ \E r \in Requests : kind = "request" /\ msg = r
        /\ bytes = Encode(kind, msg)

Change(b, h) == bytes' = b /\ how' = h /\ UNCHANGED <<kind, msg>>
Damage == /\ how = <<"as is">> /\ <<kind, msg>> \in Victims
          /\ \/ \E p \in 1..Len(bytes), x \in 0..255 : x \in Subst(bytes[p]) /\ x # bytes[p] /\ Change([bytes EXCEPT ![p] = x], <<"set", p, x>>)
             \/ \E n \in 0..Len(bytes) - 1 : Change(SubSeq(bytes, 1, n), <<"cut", n>>)
             \/ \E n \in 0..4, x \in {0, 7, 255} : Change(bytes \o [i \in 1..n + 1 |-> x], <<"extend", n, x>>)
             \* drop one byte and shorten the declared total accordingly, duplicate a tail
             \/ \E p \in 6..Len(bytes) : kind # "value" /\
                   Change([RemoveAt(bytes, p) EXCEPT ![1] = (bytes[1] + 255) % 256], <<"drop", p>>)
             \/ \E p \in 1..Len(bytes) : Deep /\ \E q \in 1..Len(bytes) : p < q /\
                   Change([bytes EXCEPT ![p] = 0, ![q] = 255], <<"two", p, q>>)
Next == Damage
Spec == Init /\ [][Next]_vars

D == Decode(kind, bytes)
\* round trip, and the number of bytes agrees with the encoding
RoundTrip == how = <<"as is">> => D = [used |-> Len(bytes), v |-> msg]
Bounded == D.used <= Len(bytes)
\* whatever is accepted is a well-formed message again; bytes after what a request consumed do not matter
Stable == D.used > 0 => LET e == Encode(kind, D.v) IN Decode(kind, e) = [used |-> Len(e), v |-> D.v]
PrefixClosed == how[1] = "extend" /\ kind # "value" => Decode(kind, SubSeq(bytes, 1, Len(Encode(kind, msg)))) = D
Vectors == Emit => PrintT("VEC " \o ToJson(<<kind, how, bytes, D>>))
=============================================================================
