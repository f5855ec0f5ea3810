------------------------------- MODULE Codec -------------------------------
(* The wire format: requests, datums and values as sequences of bytes 0..255,
   all numbers little endian.

     request  total:4 id:4 nameLen:2 name datum*
     datum    total:4 nameLen:2 name value
     value    type:1 len:4 content[len]

   A value is [t |-> type, b |-> content bytes] for everything but arrays and
   [t |-> 10, e |-> sequence of values] for arrays: integers are kept as their
   little endian two's complement bytes, strings and raw values as their text.
   A datum is [n |-> name, v |-> value], a request is
   [id |-> four bytes, n |-> name, a |-> sequence of datums].

   Decoding works on a whole buffer d, a position p (1 = first byte) and a
   number of available bytes len; it never looks at d outside p..p+len-1.     *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

TUndef == 0
TStr == 9
TArr == 10
IntSize == [t \in 1..8 |-> CASE t \in {1, 2} -> 8 [] t \in {3, 4} -> 4
                             [] t \in {5, 6} -> 2 [] OTHER -> 1]
Types == 0..10

Huge == 2147483647
\* TLC's integers have 32 bits: lengths of 2^31 and more are all the same, no buffer is that long
LE4(d, p) == IF d[p + 3] >= 128 THEN Huge
             ELSE d[p] + 256 * d[p + 1] + 65536 * d[p + 2] + 16777216 * d[p + 3]
LE2(d, p) == d[p] + 256 * d[p + 1]
ToLE4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>
ToLE2(n) == <<n % 256, (n \div 256) % 256>>

Bad == [used |-> 0]

----------------------------------------------------------------------------
(* encoding *)
\* a concatenation (by halves: there may be many)
RECURSIVE Cat(_, _, _)
Cat(S, lo, hi) == IF lo > hi THEN <<>> ELSE IF lo = hi THEN S[lo] ELSE LET m == (lo + hi) \div 2 IN Cat(S, lo, m) \o Cat(S, m + 1, hi)
CatAll(S) == Cat(S, 1, Len(S))
RECURSIVE EncValue(_)
EncContent(v) == CASE v.t = TStr -> ToLE4(Len(v.b)) \o v.b
                   [] v.t = TArr -> ToLE4(Len(v.e)) \o CatAll([i \in 1..Len(v.e) |-> EncValue(v.e[i])])
                   [] OTHER -> v.b
EncValue(v) == LET c == EncContent(v) IN <<v.t>> \o ToLE4(Len(c)) \o c
EncDatum(a) == LET v == EncValue(a.v) IN ToLE4(6 + Len(a.n) + Len(v)) \o ToLE2(Len(a.n)) \o a.n \o v
EncRequest(r) == LET as == CatAll([i \in 1..Len(r.a) |-> EncDatum(r.a[i])])
                 IN ToLE4(10 + Len(r.n) + Len(as)) \o r.id \o ToLE2(Len(r.n)) \o r.n \o as

----------------------------------------------------------------------------
(* decoding: a result is Bad or [used |-> bytes consumed, v |-> what was decoded] *)
RECURSIVE DecValue(_, _, _)
RECURSIVE DecElems(_, _, _, _, _)
\* k elements starting at p with len bytes left; o bytes were used so far
DecElems(d, p, len, k, acc) ==
    IF k = 0 THEN [used |-> acc.used, v |-> acc.v]
    ELSE LET r == DecValue(d, p, len)
         IN IF r.used = 0 THEN Bad
            ELSE DecElems(d, p + r.used, len - r.used, k - 1, [used |-> acc.used + r.used, v |-> Append(acc.v, r.v)])

DecValue(d, p, len) ==
    IF len < 5 THEN Bad ELSE
    LET t == d[p]
        L == LE4(d, p + 1)
        q == p + 5
    IN IF t \notin Types \/ L > len - 5 THEN Bad
       ELSE CASE t = TUndef -> [used |-> 5 + L, v |-> [t |-> t, b |-> SubSeq(d, q, q + L - 1)]]
              [] t = TStr -> IF L < 4 THEN Bad
                             ELSE IF LE4(d, q) # L - 4 THEN Bad
                             ELSE [used |-> 5 + L, v |-> [t |-> t, b |-> SubSeq(d, q + 4, q + L - 1)]]
              [] t = TArr -> IF L < 4 THEN Bad
                             ELSE LET k == LE4(d, q)
                                  IN IF k > (L - 4) \div 5 THEN Bad
                                     ELSE LET r == DecElems(d, q + 4, L - 4, k, [used |-> 4, v |-> <<>>])
                                          IN IF r.used = 0 THEN Bad
                                             ELSE [used |-> 5 + r.used, v |-> [t |-> t, e |-> r.v]]
              [] OTHER -> IF L < IntSize[t] THEN Bad
                          ELSE [used |-> 5 + IntSize[t], v |-> [t |-> t, b |-> SubSeq(d, q, q + IntSize[t] - 1)]]

DecDatum(d, p, len) ==
    IF len < 6 THEN Bad ELSE
    LET T == LE4(d, p)
        N == LE2(d, p + 4)
    IN IF T > len \/ T < 6 + N + 5 THEN Bad
       ELSE LET r == DecValue(d, p + 6 + N, T - 6 - N)
            IN IF r.used = 0 THEN Bad
               ELSE [used |-> T, v |-> [n |-> SubSeq(d, p + 6, p + 5 + N), v |-> r.v]]

RECURSIVE DecArgs(_, _, _, _)
\* the well-formed datums from p up to the first malformed one
DecArgs(d, p, len, acc) ==
    LET r == DecDatum(d, p, len)
    IN IF len = 0 THEN acc
       ELSE IF r.used = 0 THEN acc
       ELSE DecArgs(d, p + r.used, len - r.used, [used |-> acc.used + r.used, v |-> Append(acc.v, r.v)])

DecRequest(d, p, len) ==
    IF len < 10 THEN Bad ELSE
    LET T == LE4(d, p)
        N == LE2(d, p + 8)
    IN IF T > len \/ T < 10 + N THEN Bad
       ELSE LET r == DecArgs(d, p + 10 + N, T - 10 - N, [used |-> 10 + N, v |-> <<>>])
            IN [used |-> r.used,
                v |-> [id |-> SubSeq(d, p + 4, p + 7), n |-> SubSeq(d, p + 10, p + 9 + N), a |-> r.v]]

\* decoding a whole buffer
Decode(kind, d) == CASE kind = "request" -> DecRequest(d, 1, Len(d))
                     [] kind = "datum" -> DecDatum(d, 1, Len(d))
                     [] kind = "value" -> DecValue(d, 1, Len(d))
Encode(kind, x) == CASE kind = "request" -> EncRequest(x)
                     [] kind = "datum" -> EncDatum(x)
                     [] kind = "value" -> EncValue(x)
=============================================================================
