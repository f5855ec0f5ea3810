----------------------------- MODULE CodecTrace -----------------------------
(* Compares what the real code did with what the specification says, for recorded executions.
   Every record of the file named by TRACE is either
     [op |-> "dec", kind, in, out]       decoding the bytes in gave out ([used |-> n] or [used |-> n, v |-> ...])
     [op |-> "enc", msg, bytes, size, used, dec]   the request msg was serialized to bytes, its reported size was size,
                                         and decoding these bytes consumed used bytes and gave dec           *)
EXTENDS Codec, Json, TLC, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT K  \* number of independent chunks
VARIABLES chunk, i, bad
vars == <<chunk, i, bad>>

Fine(r) == CASE r.op = "dec" -> Decode(r.kind, r.in) = r.out
             [] r.op = "enc" -> LET e == EncRequest(r.msg)
                                IN /\ r.bytes = e /\ r.size = Len(e)
                                   /\ r.used = Len(e) /\ r.dec = r.msg
Init == chunk \in 0..K - 1 /\ i = chunk + 1 /\ bad = FALSE
Next == /\ i <= Len(Recs)
        /\ LET f == Fine(Recs[i]) IN /\ bad' = ~f
                                     /\ IF f THEN TRUE ELSE PrintT("BAD " \o ToJson(<<i>>))
        /\ i' = i + K
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_vars
=============================================================================
