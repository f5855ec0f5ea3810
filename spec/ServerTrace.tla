------------------------------ MODULE ServerTrace ------------------------------
(* Validation of recorded executions of a server (see Server); the results of lookups and starts are known in
   advance, which only cuts the search. *)
EXTENDS Server, Json, IOUtils
CONSTANT Verbose   \* 0: nothing, 1: how far, 2: the states on the way
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, s
vars == <<t, i, s>>

Set(x) == {x[j] : j \in 1..Len(x)}
\* from event number sw on only the properties enf2 are enforced
Switch(n) == IF i + 1 = Tr[t].sw THEN [n EXCEPT !.enf = Set(Tr[t].enf2)] ELSE n
Enf(x) == Set(IF x.sw = 0 THEN x.enf2 ELSE x.enf)

Init == /\ t \in 1..Len(Tr) /\ i = 0
        /\ s = New(Tr[t].con, Tr[t].dis, Enf(Tr[t]))
Ev == Tr[t].ev
Ok(x) == /\ x.a # "start" \/ s.pend[x.o].a.ret = 1
         /\ x.a # "look" \/ s.pend[x.o].a.ret = x.r
Show(what) == CASE Verbose = 1 -> (i' = i \/ PrintT("AT " \o ToJson(<<t, i'>>)))
                [] Verbose = 2 -> PrintT("AT " \o ToJson(<<t, i', what, ToString(s')>>))
                [] OTHER -> TRUE
Step == \/ \E x \in {y \in Silent(s) : Ok(y)} : s' = x.s /\ UNCHANGED <<t, i>> /\ Show(x.a)
        \/ /\ i < Len(Ev)
           /\ \E n \in Next(s, Ev[i + 1]) : s' = Switch(IF i + 2 <= Len(Ev) THEN [n EXCEPT !.now = Ev[i + 2].t] ELSE n)
           /\ i' = i + 1 /\ UNCHANGED t
           /\ Show(Ev[i + 1].k)
           /\ IF i' = Len(Ev) THEN PrintT("ACC " \o ToJson(t)) ELSE TRUE
Spec == Init /\ [][Step]_vars
=============================================================================
