--------------------------- MODULE ContainerTrace ---------------------------
(* Long recorded sequences of container operations: after every operation the dump of all objects and the returned
   value must be what the specification says.  A record is a sequence of steps [op, ret, st]. *)
EXTENDS RequestObj, Json, TLC, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, st
vars == <<t, i, st>>
Init == t \in 1..Len(Recs) /\ i = 0 /\ st = Empty
Next == /\ i < Len(Recs[t])
        /\ LET s == Recs[t][i + 1]
               x == Apply(st, s.op)
               ok == x.ret = s.ret /\ x.st = s.st
           IN /\ IF ok THEN TRUE ELSE PrintT("BAD " \o ToJson(<<t, i + 1>>))
              /\ st' = x.st
              /\ i' = IF ok THEN i + 1 ELSE Len(Recs[t])
              /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
