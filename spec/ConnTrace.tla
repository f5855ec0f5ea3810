------------------------------ MODULE ConnTrace ------------------------------
(* Validation of recorded executions of one end (see Endpoint).  A trace is accepted when some behaviour of the
   specification produces exactly its events.  Traces carry two kinds of hindsight that only cut the search:
   the position of a push among the transmitted ones (w, 0 if never transmitted), the connection that transmitted it (wg),
   and the result of a pull (ret). *)
EXTENDS Endpoint, Json, IOUtils
CONSTANT Verbose   \* 0: nothing, 1: how far, 2: the states on the way
Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, s
vars == <<t, i, s>>

Set(x) == {x[j] : j \in 1..Len(x)}
\* from event number sw on only the properties enf2 are enforced
Switch(n) == IF i + 1 = Tr[t].sw THEN [n EXCEPT !.enf = Set(Tr[t].enf2)] ELSE n
Enf(x) == Set(IF x.sw = 0 THEN x.enf2 ELSE x.enf)

Init == /\ t \in 1..Len(Tr) /\ i = 0
        /\ s = [New(Tr[t].even, Enf(Tr[t])) EXCEPT !.max = Tr[t].max, !.two = Tr[t].two]

Ev == Tr[t].ev
PushOk(x) == x.a # "push" \/ (s.pend[x.o].a.wg = s.gen /\ s.pend[x.o].a.w = s.wl + 1)
PullOk(x) == x.a # "pull" \/ s.pend[x.o].a.ret = Head(s.rq).f
RespOk(x) == x.a # "resp" \/ s.pend[x.o].a.ret = Head(s.rxq).f
Steps == {x \in Silent(s) : PushOk(x) /\ PullOk(x) /\ RespOk(x)}
Eager(x) == x.a = "pull" \/ (x.a = "push" /\ SaSteps(s) = {} /\ OwedSteps(s) = {})
Note1(x) == IF x.a = "push" THEN [x.s EXCEPT !.wl = @ + 1] ELSE x.s

Show(what) == CASE Verbose = 1 -> (i' = i \/ PrintT("AT " \o ToJson(<<t, i'>>)))
                [] Verbose = 2 -> PrintT("AT " \o ToJson(<<t, i', what, ToString(s')>>))
                [] OTHER -> TRUE
Step == LET S == Steps
            E == {x \in S : Eager(x)}
        IN IF E # {} THEN LET x == CHOOSE x \in E : TRUE IN s' = Note1(x) /\ UNCHANGED <<t, i>> /\ Show(x.a)
           ELSE \/ \E x \in S : s' = Note1(x) /\ UNCHANGED <<t, i>> /\ Show(x.a)
                \/ /\ i < Len(Ev)
                   /\ \E n \in Next(s, Ev[i + 1]) : s' = Switch(IF i + 2 <= Len(Ev) THEN [n EXCEPT !.now = Ev[i + 2].t] ELSE n)
                   /\ i' = i + 1 /\ UNCHANGED t
                   /\ Show(Ev[i + 1].k)
                   /\ IF i' = Len(Ev) THEN PrintT("ACC " \o ToJson(t)) ELSE TRUE
Spec == Init /\ [][Step]_vars
=============================================================================
