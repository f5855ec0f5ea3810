------------------------------ MODULE MCServer ------------------------------
(* A server (Server, everything enforced) between its users and clients that come, send and go at any time.  Like MCEnd:
   stimuli are applied one after the other, the server runs until nothing is left to do, TLC enumerates every sequence
   of stimuli up to Depth, and the harness plays them against the real code (vf/enumr.py). *)
EXTENDS Server, Json
CONSTANTS Depth, Emit, Stims, Con, Dis, MaxClients
VARIABLES m, hist
vars == <<m, hist>>
All == {"C12", "C17", "C18", "C19", "C20", "C21", "C22", "C23"}
(* cl: clients in the order in which they came: [w: waiting, in, gone; c: its connection]; kill: connections that were
   told to end; gate: handlers wait; slot: the references the user holds *)
Start == [s |-> New(Con, Dis, All), cl |-> <<>>, kill |-> {}, gate |-> FALSE, slot |-> <<0, 0>>, no |-> 0, nc |-> 0, runs |-> 0]
One(S) == CHOOSE x \in S : TRUE
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Evt(x, e) == [x EXCEPT !.s = One(Next(x.s, [t |-> x.s.now] @@ e))]
Sil(x, S) == [x EXCEPT !.s = One(S).s]

RetVal(x, o) == LET p == x.s.pend[o] IN IF p.k = "sstart" THEN (IF p.lin THEN 1 ELSE 0) ELSE IF p.k = "smax" THEN p.a.n ELSE IF p.k = "sget" THEN p.res
                ELSE IF p.k = "stype" THEN One(p.vs) ELSE 1
Returns(x) == {o \in DOMAIN x.s.pend : Next(x.s, [k |-> "R", o |-> o, v |-> RetVal(x, o), t |-> x.s.now]) # {} /\
                  (x.s.pend[o].k = "sstart" => x.s.pend[o].lin \/ x.s.pend[o].run \/ x.s.pend[o].a.exp = "fail")}
\* who gets the reference a lookup returned
Fill(x, o) == LET p == x.s.pend[o] IN IF p.k = "sget" /\ p.res # 0 THEN [x EXCEPT !.slot[p.a.slot] = p.res] ELSE x
Waiting1(x) == {i \in 1..Len(x.cl) : x.cl[i].w = "wait"}
\* connections that have a reason to end
Doomed(x) == {c \in DOMAIN x.s.cs : ~x.s.cs[c].cl /\ x.s.cs[c].held = 0 /\
                 (c \in x.kill \/ x.s.th = "end" \/ \E i \in 1..Len(x.cl) : x.cl[i].c = c /\ x.cl[i].w = "gone")}
OneStep(x) ==
    LET s == x.s
        ss == {y \in StartSteps(s) : s.pend[y.o].a.exp = "ok"}
    IN
    IF ss # {} THEN [Sil(x, ss) EXCEPT !.s.lopen = TRUE, !.runs = @ + 1]
    ELSE IF BeginSteps(s) # {} THEN Sil(x, BeginSteps(s))
    ELSE IF LookSteps(s) # {} THEN Sil(x, LookSteps(s))
    ELSE IF Returns(x) # {} THEN LET o == One(Returns(x)) IN Evt(Fill(x, o), [k |-> "R", o |-> o, v |-> RetVal(x, o)])
    ELSE IF s.th = "acc" /\ s.con THEN Evt(x, [k |-> "connH", c |-> s.cur, id |-> s.cs[s.cur].id])
    ELSE IF s.th \in {"con", "dis"} THEN (IF x.gate THEN (IF Doomed(x) # {} THEN Evt(x, [k |-> "cclose", c |-> Least(Doomed(x))]) ELSE x)
                                          ELSE Evt(x, [k |-> IF s.th = "con" THEN "connHR" ELSE "disHR"]))
    ELSE IF ListSteps(s) # {} THEN Sil(x, ListSteps(s))
    ELSE IF Doomed(x) # {} THEN Evt(x, [k |-> "cclose", c |-> Least(Doomed(x))])
    ELSE IF s.th = "disR" THEN Evt(x, [k |-> "free", c |-> s.cur])
    ELSE IF s.th = "del" THEN (IF s.dis THEN Evt(x, [k |-> "disH", c |-> Least(s.todo), id |-> s.cs[Least(s.todo)].id]) ELSE Evt(x, [k |-> "free", c |-> Least(s.todo)]))
    ELSE IF s.th = "idle" THEN
        (IF s.req THEN Sil(x, EndingSteps(s))
         ELSE IF EndedOnes(s) # {} THEN Sil(x, {y \in UnlistSteps(s) : y.s.todo = {Least(EndedOnes(s))}})
         ELSE IF Waiting1(x) # {} /\ \E l \in s.lims : Below(s, l)
              THEN LET i == Least(Waiting1(x)) IN
                   [Evt(x, [k |-> "accept", c |-> x.nc + 1, known |-> TRUE]) EXCEPT !.cl[i] = [w |-> "in", c |-> x.nc + 1], !.nc = @ + 1]
         ELSE x)
    ELSE IF s.th = "end" THEN
        LET L == {c \in DOMAIN s.cs : s.cs[c].list = "out" /\ s.cs[c].cl /\ ~s.cs[c].fr} IN
        (IF L # {} THEN Evt(x, [k |-> "free", c |-> Least(L)])
         ELSE IF s.lopen THEN [Evt(x, [k |-> "lclose"]) EXCEPT !.cl = SelectSeq(@, LAMBDA i : i.w # "wait")]
         ELSE IF OffSteps(s) # {} THEN Sil(x, OffSteps(s)) ELSE x)
    ELSE x
RECURSIVE Run(_)
Run(x) == LET y == OneStep(x) IN IF y = x THEN x ELSE Run(y)
Deadlines(x, T) == {d \in {x.s.pend[o].t + x.s.pend[o].a.n * 1000 : o \in {y \in DOMAIN x.s.pend : x.s.pend[y].k \in {"sstop", "swait"} /\ x.s.pend[y].a.n > 0}} :
                       d > x.s.now /\ d < T}
RECURSIVE Pass(_, _)
Pass(x, T) == LET D == Deadlines(x, T) IN IF D = {} THEN Run([x EXCEPT !.s.now = T]) ELSE Pass(Run([x EXCEPT !.s.now = Least(D)]), T)

---------------------------------------------------------------------------
Op(x, e) == [Evt(x, [o |-> x.no + 1, k |-> "C"] @@ e) EXCEPT !.no = @ + 1]
NPend(x, k) == Cardinality({o \in DOMAIN x.s.pend : x.s.pend[o].k = k})
Living(x) == {i \in 1..Len(x.cl) : x.cl[i].w # "gone"}
Newest(x) == CHOOSE i \in Living(x) : \A j \in Living(x) : i >= j
Leave(x, i) == IF x.cl[i].w = "wait" THEN [x EXCEPT !.cl[i].w = "wgone"] ELSE [x EXCEPT !.cl[i].w = "gone"]
Get(x, k, bytag, id) == IF x.slot[k] # 0 THEN {} ELSE
    {LET y == Op(x, [f |-> "sget", bytag |-> bytag, tag |-> "1", id |-> id, ret |-> 0]) IN [y EXCEPT !.s.pend[y.no].a = [slot |-> k] @@ @]}
Do(x, l) ==
    CASE l = "start" -> IF x.runs < 2 /\ x.s.th # "end" THEN {Op(x, [f |-> "sstart", kind |-> 1, path |-> "a0", exp |-> IF x.s.st = "off" THEN "ok" ELSE "fail", dof |-> TRUE, ret |-> 1])} ELSE {}
      [] l = "startx" -> IF x.s.st = "off" THEN {Op(x, [f |-> "sstart", kind |-> 1, path |-> "", exp |-> "fail", dof |-> TRUE, ret |-> 0])} ELSE {}
      [] l = "stop0" -> {Op(x, [f |-> "sstop", n |-> 0])}
      [] l = "stopw" -> IF NPend(x, "sstop") < 2 THEN {Op(x, [f |-> "sstop", n |-> -1])} ELSE {}
      [] l = "stop1" -> IF NPend(x, "sstop") < 2 THEN {Op(x, [f |-> "sstop", n |-> 1])} ELSE {}
      [] l = "waitw" -> IF NPend(x, "swait") < 2 /\ x.s.st # "off" THEN {Op(x, [f |-> "swait", n |-> -1])} ELSE {}
      [] l = "wait1" -> IF NPend(x, "swait") < 2 THEN {Op(x, [f |-> "swait", n |-> 1])} ELSE {}
      [] l \in {"m0", "m1", "m2", "mx"} -> LET n == CASE l = "m0" -> 0 [] l = "m1" -> 1 [] l = "m2" -> 2 [] OTHER -> -1
                                          IN IF n = x.s.max THEN {} ELSE {Op(x, [f |-> "smax", n |-> n])}
      [] l = "cc" -> IF x.s.st = "run" /\ Len(x.cl) < MaxClients THEN {[x EXCEPT !.cl = Append(@, [w |-> "wait", c |-> 0])]} ELSE {}
      [] l = "c2" -> IF x.s.st = "run" /\ Len(x.cl) + 1 < MaxClients THEN {[x EXCEPT !.cl = @ \o <<[w |-> "wait", c |-> 0], [w |-> "wait", c |-> 0]>>]} ELSE {}
      \* all accepted clients leave together
      [] l = "cz" -> LET A == {i \in Living(x) : x.cl[i].w = "in"} IN
                     IF Cardinality(A) > 1 THEN {[x EXCEPT !.cl = [i \in 1..Len(x.cl) |-> IF i \in A THEN [x.cl[i] EXCEPT !.w = "gone"] ELSE x.cl[i]]]} ELSE {}
      \* (a client that has not been accepted yet is accepted all the same)
      [] l = "cx" -> LET A == {i \in Living(x) : x.cl[i].w = "in"} IN IF A # {} THEN {Leave(x, Least(A))} ELSE {}
      [] l = "cy" -> LET A == {i \in Living(x) : x.cl[i].w = "in"} IN IF Cardinality(A) > 1 THEN {Leave(x, CHOOSE i \in A : \A j \in A : i >= j)} ELSE {}
      [] l = "cs" -> LET A == {i \in Living(x) : x.cl[i].w = "in"} IN IF A # {} THEN {x} ELSE {}
      [] l = "g1" -> Get(x, 1, FALSE, 1)
      [] l = "g2" -> Get(x, 2, FALSE, 2)
      [] l = "h1" -> Get(x, 2, FALSE, 1)
      [] l = "y1" -> IF x.slot[1] # 0 /\ x.slot[2] = 0 THEN {[Evt(x, [k |-> "hold", c |-> x.slot[1]]) EXCEPT !.slot[2] = x.slot[1]]} ELSE {}
      [] l = "r1" -> IF x.slot[1] # 0 THEN {[Evt(x, [k |-> "rel", c |-> x.slot[1]]) EXCEPT !.slot[1] = 0]} ELSE {}
      [] l = "r2" -> IF x.slot[2] # 0 THEN {[Evt(x, [k |-> "rel", c |-> x.slot[2]]) EXCEPT !.slot[2] = 0]} ELSE {}
      [] l = "k1" -> IF x.slot[1] # 0 THEN {[x EXCEPT !.kill = @ \cup {x.slot[1]}]} ELSE {}
      [] l = "k2" -> IF x.slot[2] # 0 THEN {[x EXCEPT !.kill = @ \cup {x.slot[2]}]} ELSE {}
      [] l = "shut" -> IF ~x.gate /\ (Con \/ Dis) THEN {[x EXCEPT !.gate = TRUE]} ELSE {}
      [] l = "open" -> IF x.gate THEN {[x EXCEPT !.gate = FALSE]} ELSE {}
      [] l = "t" -> {x}
      [] OTHER -> {}
After(x, l) == IF l = "t" THEN Pass(x, x.s.now + 1100) ELSE Run(x)
Init == m = Start /\ hist = <<>>
Step == /\ Len(hist) < Depth
        /\ \E l \in Stims : \E y \in Do(m, l) :
            /\ m' = After(y, l) /\ hist' = Append(hist, l)
            /\ Emit => PrintT("SEQ " \o ToJson(hist'))
Spec == Init /\ [][Step]_vars
Age(x, o) == IF x.s.pend[o].a.n > 0 THEN x.s.now - x.s.pend[o].t ELSE 0
View == LET s == m.s IN <<s.st, s.th, s.max, s.lims, s.nid, s.req, m.gate, m.slot[1] # 0, m.slot[2] # 0,
    [i \in 1..Len(m.cl) |-> <<m.cl[i].w, IF m.cl[i].c = 0 THEN <<>> ELSE LET c == s.cs[m.cl[i].c] IN <<c.id, c.list, c.cl, c.fr, c.held>>>>],
    {<<s.pend[o].k, s.pend[o].a.n, Age(m, o)>> : o \in {y \in DOMAIN s.pend : s.pend[y].k \in {"sstop", "swait"}}}, m.runs>>
Settles == Quiet(m.s, [r |-> Waiting1(m) # {}])
\* C17: the number of open connections never exceeds a limit that was in effect at the last accept
Limit == LET n == Cardinality(Open(m.s)) IN n = 0 \/ n <= MaxClients
\* C18: numbers are those of the accept order
Numbered == \A c \in DOMAIN m.s.cs : m.s.cs[c].id >= 1 /\ m.s.cs[c].id < m.s.nid + (IF m.runs > 1 THEN MaxClients ELSE 0)
\* C19: what is held is not destroyed, and not closed
Held == \A c \in DOMAIN m.s.cs : m.s.cs[c].held > 0 => ~m.s.cs[c].fr /\ ~m.s.cs[c].cl
\* C20: after the stop nothing is left
Nothing == m.s.st = "off" => (~m.s.lopen /\ \A c \in DOMAIN m.s.cs : m.s.cs[c].cl /\ m.s.cs[c].fr)
=============================================================================
