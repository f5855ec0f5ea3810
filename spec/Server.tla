------------------------------ MODULE Server ------------------------------
(* A server: what its users, its handlers, its clients and the file system can observe.

   Like Endpoint: Next(s, e) is the set of states after the observable event e (empty: the specification forbids it),
   Silent(s) the set of steps [a, o, r, s] the server takes by itself (r: the result of a lookup).  Guards carry the
   properties they are part of, s.enf those that are enforced.  Connections are numbered in accept order; how one
   connection behaves is the subject of Endpoint, here it only ends ("cclose") and is destroyed ("free"). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

G(s, L, c) == c \/ L \cap s.enf = {}
NoC == [c \in {} |-> 0]

(* st: off, run, ending.  th, the server thread: off, idle, acc (accepted cur), con (its handler runs), conR,
   del (has the ended connections todo to destroy), dis (the handler for cur runs), disR, end *)
New(con, dis, enf) ==
    [st |-> "off", kind |-> 0, path |-> "", con |-> con, dis |-> dis, enf |-> enf, now |-> 0,
     max |-> -1, lims |-> {-1},  \* the limit, those that may be in effect
     next |-> {},               \* those that will be once the thread has looked again (empty: it has)
     files |-> {}, maybe |-> {},  \* paths others have put files at; paths of which nothing is known
     nid |-> 1, req |-> FALSE, lopen |-> FALSE,
     th |-> "off", cur |-> 0, todo |-> {},
     cs |-> NoC, pend |-> [o \in {} |-> 0]]

Open(s) == {c \in DOMAIN s.cs : ~s.cs[c].cl}
Listed(s) == {c \in DOMAIN s.cs : s.cs[c].list = "yes"}
Below(s, l) == l < 0 \/ Cardinality(Open(s)) < l
Types(s) == IF s.st = "off" THEN 0 ELSE s.kind

Note(s, p) == [p EXCEPT !.run = @ \/ s.st # "off", !.off = @ \/ s.st = "off", !.vs = @ \cup {Types(s)}]
U(s) == [s EXCEPT !.pend = [o \in DOMAIN s.pend |-> Note(s, s.pend[o])]]
Call(s, o, k, a) == U([s EXCEPT !.pend = (o :> [k |-> k, a |-> a, t |-> s.now, lin |-> FALSE, done |-> FALSE, res |-> 0,
                                               run |-> FALSE, off |-> FALSE, vs |-> {}]) @@ s.pend])
Drop(s, o) == [s EXCEPT !.pend = [x \in DOMAIN s.pend \ {o} |-> s.pend[x]]]

---------------------------------------------------------------------------
(* steps taken by the server itself *)
St(a, o, r, s) == [a |-> a, o |-> o, r |-> r, s |-> s]
Ops(s, K) == {o \in DOMAIN s.pend : s.pend[o].k \in K /\ ~s.pend[o].lin}
StartSteps(s) == IF s.st # "off" THEN {} ELSE
    {St("start", o, 0, U([s EXCEPT !.st = "run", !.kind = s.pend[o].a.kind, !.path = s.pend[o].a.path, !.th = "idle", !.nid = 1,
                                   !.req = FALSE, !.lims = {s.max}, !.next = {}, !.pend[o].lin = TRUE])) : o \in Ops(s, {"sstart"})}
\* a stop, a wait for the stop, the destructor: takes effect
BeginSteps(s) ==
    {St("begin", o, 0, IF s.st = "off" THEN [s EXCEPT !.pend[o].lin = TRUE, !.pend[o].done = TRUE]
                       ELSE [s EXCEPT !.pend[o].lin = TRUE, !.req = @ \/ s.pend[o].k # "swait"]) : o \in Ops(s, {"sstop", "swait", "sdel"})}
LookSteps(s) == UNION {
    LET a == s.pend[o].a
        M == {c \in Listed(s) : ~s.cs[c].cl /\ (IF a.bytag THEN s.cs[c].tag = a.tag ELSE s.cs[c].id = a.id)}
    IN {St("look", o, c, [s EXCEPT !.pend[o].lin = TRUE, !.pend[o].res = c]) : c \in IF M = {} THEN {0} ELSE M} : o \in Ops(s, {"sget"})}
\* (a connection for which there were no descriptors is nobody's)
DropSteps(s) == IF ~(s.th = "acc" /\ s.cs[s.cur].bad /\ s.cs[s.cur].cl) THEN {}
                ELSE {St("drop", 0, 0, [s EXCEPT !.cs[s.cur].fr = TRUE, !.th = "idle", !.cur = 0, !.nid = @ - 1])}
ListSteps(s) == IF s.th = "conR" \/ (s.th = "acc" /\ ~s.con /\ ~s.cs[s.cur].bad)
                THEN {St("list", 0, 0, [s EXCEPT !.cs[s.cur].list = "yes", !.th = "idle", !.cur = 0, !.lims = {s.max}, !.next = {}])} ELSE {}
\* ended connections are taken out of the list, to be announced and destroyed
EndedOnes(s) == {c \in Listed(s) : s.cs[c].cl}
Out(s, D) == [s EXCEPT !.cs = [c \in DOMAIN s.cs |-> IF c \in D THEN [s.cs[c] EXCEPT !.list = "out"] ELSE s.cs[c]]]
\* (one at a time: taking several at once shows nothing else)
UnlistSteps(s) == IF s.th # "idle" \/ s.st # "run" THEN {} ELSE
    {St("unlist", 0, 0, [Out(s, {c}) EXCEPT !.th = "del", !.todo = {c}, !.next = @ \cup {s.max}]) :
        \* (those nobody can see are all the same)
        c \in LET E == EndedOnes(s)  H == {x \in E : ~s.cs[x].known}
              IN IF s.dis \/ H = {} THEN E ELSE (E \ H) \cup {CHOOSE x \in H : \A y \in H : x <= y}}
Popped(s, c) == LET T == s.todo \ {c} IN
    [s EXCEPT !.cs[c].fr = TRUE, !.todo = T, !.cur = 0, !.th = IF s.th = "end" THEN "end" ELSE IF T = {} THEN "idle" ELSE "del"]
\* a connection nobody can see the destruction of
PopSteps(s) == IF s.th # "del" \/ s.dis THEN {} ELSE
    {St("pop", 0, 0, Popped(s, c)) : c \in {x \in s.todo : ~s.cs[x].known}}
EndingSteps(s) == IF s.th # "idle" \/ s.st # "run" THEN {}
                  ELSE IF ~G(s, {"C20"}, s.req) THEN {}
                  ELSE {St("ending", 0, 0, U([Out(s, Listed(s)) EXCEPT !.st = "ending", !.th = "end"]))}
Complete(s) == ~s.lopen /\ \A c \in DOMAIN s.cs : s.cs[c].fr \/ (~s.cs[c].known /\ s.cs[c].cl)
OffSteps(s) == IF s.th # "end" \/ ~G(s, {"C20"}, Complete(s)) THEN {} ELSE
    {St("off", 0, 0, U([s EXCEPT !.st = "off", !.th = "off", !.req = FALSE,
                                 !.pend = [o \in DOMAIN s.pend |-> [s.pend[o] EXCEPT !.done = @ \/ (s.pend[o].lin /\ s.pend[o].k \in {"sstop", "swait", "sdel"})]]]))}
Silent(s) == StartSteps(s) \cup DropSteps(s) \cup BeginSteps(s) \cup LookSteps(s) \cup ListSteps(s) \cup UnlistSteps(s) \cup PopSteps(s) \cup EndingSteps(s) \cup OffSteps(s)

---------------------------------------------------------------------------
(* observable events *)
NewC(s, e) == [id |-> s.nid, list |-> "no", cl |-> FALSE, fr |-> FALSE, known |-> e.known, bad |-> FALSE, tag |-> "", held |-> 0, busy |-> FALSE]
Accept(s, e) ==
    IF ~G(s, {"C20", "C18"}, s.st = "run" /\ s.th = "idle") THEN {}
    ELSE IF ~G(s, {"C17"}, \E l \in s.lims : Below(s, l)) THEN {}
    ELSE {[s EXCEPT !.cs = (e.c :> NewC(s, e)) @@ @, !.nid = @ + 1, !.th = "acc", !.cur = e.c]}
ConH(s, e) == IF ~G(s, {"C18"}, s.con /\ s.th = "acc" /\ s.cur = e.c /\ ~s.cs[e.c].bad /\ s.cs[e.c].id = e.id) THEN {} ELSE {[s EXCEPT !.th = "con", !.cur = e.c]}
DisH(s, e) == IF ~G(s, {"C18"}, s.dis /\ s.th = "del" /\ e.c \in s.todo /\ s.cs[e.c].id = e.id) THEN {} ELSE {[s EXCEPT !.th = "dis", !.cur = e.c]}
Free(s, e) ==
    IF ~G(s, {"C18", "C20"}, (s.th = "disR" /\ s.cur = e.c) \/ (s.th = "del" /\ ~s.dis /\ e.c \in s.todo) \/ (s.th = "end" /\ s.cs[e.c].list = "out")) THEN {}
    ELSE IF ~G(s, {"C18", "C19", "C22"}, s.cs[e.c].cl /\ ~s.cs[e.c].fr /\ s.cs[e.c].held = 0) THEN {}
    ELSE {Popped(s, e.c)}

C(s, e) ==
    CASE e.f = "sstart" -> {LET d == e.kind = 1 /\ e.dof /\ e.exp # "fail" /\ e.path \in s.files IN
                            Call([s EXCEPT !.files = IF d THEN @ \ {e.path} ELSE @, !.maybe = IF d THEN @ \cup {e.path} ELSE @],
                                 e.o, "sstart", [kind |-> e.kind, path |-> e.path, exp |-> e.exp, ret |-> e.ret])}
      [] e.f \in {"sstop", "swait"} -> {Call(s, e.o, e.f, [n |-> e.n])}
      [] e.f = "sdel" -> {Call(s, e.o, e.f, [n |-> -1])}
      [] e.f = "smax" -> {Call([s EXCEPT !.max = e.n, !.lims = IF s.st = "off" THEN {e.n} ELSE @ \cup {e.n}, !.next = IF @ = {} THEN @ ELSE @ \cup {e.n}], e.o, "smax", [n |-> e.n])}
      [] e.f = "sget" -> {Call(s, e.o, "sget", [bytag |-> e.bytag, tag |-> e.tag, id |-> e.id, ret |-> e.ret])}
      [] OTHER -> {Call(s, e.o, e.f, [x |-> 0])}

Over(s, p) == p.a.n > 0 /\ s.now >= p.t + p.a.n * 1000
R(s, e) ==
    LET p == s.pend[e.o]
        d == Drop(s, e.o)
    IN
    CASE p.k = "sstart" -> IF e.v = 1 THEN (IF G(s, {"C20"}, p.lin /\ p.a.exp # "fail") THEN {[d EXCEPT !.maybe = @ \ {p.a.path}]} ELSE {})
                           ELSE IF ~G(s, {"C20"}, p.run \/ p.a.exp # "ok") THEN {}
                           \* (refused because the server was running: the file was not touched)
                           ELSE {IF p.a.path \in s.maybe /\ ~p.off THEN [d EXCEPT !.files = @ \cup {p.a.path}, !.maybe = @ \ {p.a.path}] ELSE d}
      [] p.k \in {"sstop", "swait", "sdel"} ->
            IF ~p.lin THEN {} ELSE IF G(s, {"C20"}, (p.a.n = 0 \/ p.done \/ Over(s, p)) /\ ~(p.a.n > 0 /\ s.now > p.t + p.a.n * 1000 + 200)) THEN {d} ELSE {}
      [] p.k = "smax" -> IF G(s, {"C17"}, e.v = p.a.n) THEN {d} ELSE {}
      [] p.k = "sget" -> IF e.v > 0
                         THEN (IF G(s, {"C19", "C18"}, p.lin /\ p.res = e.v) /\ G(s, {"C19"}, ~s.cs[e.v].cl) THEN {[d EXCEPT !.cs[e.v].held = @ + 1]} ELSE {})
                         ELSE IF G(s, {"C19", "C18"}, e.v = 0 /\ p.lin /\ p.res = 0) THEN {d} ELSE {}
      [] p.k = "stype" -> IF G(s, {"C20"}, e.v \in p.vs) THEN {d} ELSE {}
      [] p.k = "sinfo" -> IF G(s, {"C20"}, e.v = 1 \/ p.off) THEN {d} ELSE {}
      [] OTHER -> {d}

MayWait(s, p) ==
    CASE p.k \in {"sstop", "swait", "sdel"} -> G(s, {"C20", "C21"}, p.a.n # 0 /\ p.lin /\ ~p.done /\ ~Over(s, p))
      [] OTHER -> G(s, {"C21", "C19", "C20"}, FALSE)
\* nothing can happen until time passes (e.r: a client is waiting to be accepted)
Quiet(s, e) ==
    /\ \A o \in DOMAIN s.pend : MayWait(s, s.pend[o])
    /\ G(s, {"C18"}, s.th \in {"off", "idle", "con", "dis", "end"})
    /\ (s.th = "idle") =>
        /\ G(s, {"C20"}, ~s.req)
        /\ G(s, {"C18", "C19", "C12"}, EndedOnes(s) = {})
        /\ G(s, {"C17", "C20", "C23"}, e.r => \E l \in s.lims : ~Below(s, l))
    \* only a handler or a reference can delay the stop
    /\ (s.th = "end") => G(s, {"C20", "C19", "C17", "C18", "C12", "C23"}, \E c \in Open(s) : s.cs[c].busy \/ s.cs[c].held > 0)

At(s, e) == [s EXCEPT !.now = e.t]
Next(s0, e) == LET s == At(s0, e) IN
    CASE e.k = "C" -> C(s, e)
      [] e.k = "R" -> R(s, e)
      [] e.k = "accept" -> Accept(s, e)
      [] e.k = "connH" -> ConH(s, e)
      [] e.k = "connHR" -> {[s EXCEPT !.th = "conR"]}
      [] e.k = "disH" -> DisH(s, e)
      [] e.k = "disHR" -> {[s EXCEPT !.th = "disR"]}
      [] e.k = "free" -> Free(s, e)
      [] e.k = "nofd" -> IF s.th = "acc" /\ s.cur = e.c THEN {[s EXCEPT !.cs[e.c].bad = TRUE]} ELSE {}
      \* the socket of a connection is closed: it has ended
      [] e.k = "cclose" -> IF G(s, {"C19"}, s.cs[e.c].held = 0) THEN {[s EXCEPT !.cs[e.c].cl = TRUE]} ELSE {}
      [] e.k = "tag" -> {[s EXCEPT !.cs[e.c].tag = e.v]}
      [] e.k = "hcall" -> {[s EXCEPT !.cs[e.c].busy = TRUE]}
      [] e.k = "hret" -> {[s EXCEPT !.cs[e.c].busy = FALSE]}
      \* a reference is copied, a reference is released
      [] e.k = "hold" -> {[s EXCEPT !.cs[e.c].held = @ + 1]}
      [] e.k = "rel" -> {[s EXCEPT !.cs[e.c].held = @ - 1]}
      [] e.k = "lopen" -> {[s EXCEPT !.lopen = TRUE]}
      [] e.k = "lclose" -> IF G(s, {"C20"}, s.st # "run") THEN {[s EXCEPT !.lopen = FALSE]} ELSE {}
      [] e.k = "file" -> {[s EXCEPT !.files = @ \cup {e.p}, !.maybe = @ \ {e.p}]}
      \* (a start that fails leaves alone what is there)
      [] e.k = "exists" -> IF e.p \in s.files THEN (IF G(s, {"C20"}, e.v = 1) THEN {s} ELSE {})
                           ELSE IF G(s, {"C20"}, \/ e.p \in s.maybe \/ s.path # e.p \/ s.st = "ending" \/ \E o \in DOMAIN s.pend : s.pend[o].k = "sstart"
                                            \/ (s.st = "run" /\ e.v = 1) \/ (s.st = "off" /\ e.v = 0)) THEN {s} ELSE {}
      [] e.k = "q" -> IF ~Quiet(s, e) THEN {}
                       \* (what was left of the turn in which connections were destroyed is over)
                       ELSE IF s.th = "idle" /\ s.next # {} THEN {[s EXCEPT !.lims = s.next, !.next = {}]} ELSE {s}
      [] e.k = "end" -> IF G(s, {"C22"}, e.fds = 0 /\ e.mem = 0) /\ G(s, {"C20"}, s.st = "off") THEN {s} ELSE {}
      [] e.k \in {"crash", "stuck"} -> {}
      [] OTHER -> {s}
=============================================================================
