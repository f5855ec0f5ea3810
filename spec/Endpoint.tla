------------------------------ MODULE Endpoint ------------------------------
(* One end of a connection: what its users, its peer and its clock can observe.

   The state of an end is a record s.  Next(s, e) is the set of states after the observable event e (empty: the
   specification forbids the event), Silent(s) the set of steps [a, o, s] the end takes by itself.  The same
   operators are used by MCConn / MCPair (model checking of the guarantees over all behaviours) and by ConnTrace
   (validation of recorded executions of the real code).

   Every guard carries the properties (C04..C24) it is part of; s.enf says which properties are enforced, so that a
   recorded execution can be judged for one property at a time.  With everything enforced this is the specification.

   Times are in milliseconds.  An interval timer is known as a range lo..hi of instants at which it may expire. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ("*": everything is enforced) *)
In(s, p) == p \in s.enf \/ "*" \in s.enf
G(s, L, c) == c \/ ("*" \notin s.enf /\ (L \cup (IF s.gen > 1 THEN {"C15"} ELSE {})) \cap s.enf = {})

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
NoH == [f |-> 0, h |-> 0]

(* st: off (never connected), cing (connecting), up, ended (over, the socket is still open), closed, down *)
New(even, enf) ==
    [st |-> "off", was |-> "off", gen |-> 0, now |-> 0, enf |-> enf,
     disc |-> FALSE,         \* graceful disconnect has begun
     stop |-> FALSE,         \* forced disconnect requested
     mstop |-> FALSE,        \* the owner (server) may stop it at any moment
     why |-> {},             \* causes of an end that have occurred: eof, rerr, serr, hup, proto
     sq |-> <<>>,            \* accepted and not completely transmitted: [k: p|ka|kao, o, id]
     part |-> FALSE,         \* the head of sq is partly transmitted
     even |-> even, nid |-> IF even THEN 2 ELSE 1,
     rxq |-> <<>>,           \* completely received, not yet dispatched: [f, n, id]
     disp |-> NoH,           \* frame f is on its way to handler h (-1: to the default handler or the queue, -2: to the queue)
     two |-> FALSE,          \* handlers change while requests arrive: every step of the choice shows
     busy |-> 0,             \* frame the running handler works on
     rq |-> <<>>,            \* the receive queue
     hm |-> [n \in {} |-> 0], hd |-> 0,
     max |-> 16384, sa |-> 10000, na |-> 60000, sbs |-> 1024, rbs |-> 1024, tag |-> 0,
     ltx |-> 0, lrx |-> 0, saLo |-> 0, saHi |-> 0, naLo |-> 0, naHi |-> 0,
     deaf |-> FALSE,         \* disconnecting, and all there was to read was read before: no longer listens
     owed |-> FALSE,         \* a keep-alive was due when the interval was changed: it may still come
     doom |-> FALSE,         \* the silence limit was over when it was changed: the end may have been decided
     held |-> 0,             \* references held by users
     wl |-> 0,               \* prophecy (traces only): transmitted pushes that have taken effect
     pend |-> [o \in {} |-> 0]]

Idle(s) == s.busy = 0 /\ s.disp = NoH
Mand(s) == \E i \in 1..Len(s.sq) : s.sq[i].k # "kao"
Flushed(s) == ~Mand(s) /\ ~s.part
Named(s, n) == IF n \in DOMAIN s.hm THEN s.hm[n] ELSE 0
Lookup(s, n) == IF Named(s, n) # 0 THEN Named(s, n) ELSE s.hd
Names == {"conn", "type", "disc", "stop", "cing"}

\* the values a state query may return in state s
Vals(s, k) ==
    CASE k \in {"conn", "type"} -> IF s.st \in {"up", "ended"} THEN {1} ELSE IF s.st \in {"down", "off"} THEN {0} ELSE {0, 1}
      [] k = "disc" -> IF s.st = "up" THEN (IF s.disc THEN {1} ELSE IF s.stop \/ s.mstop THEN {0, 1} ELSE {0})
                       ELSE IF s.st = "ended" THEN {1} ELSE IF s.st \in {"down", "off"} THEN {0} ELSE {0, 1}
      [] k = "stop" -> IF s.st = "down" THEN {1} ELSE IF s.st = "cing" THEN {0, 1} ELSE {0}
      \* (until the call that connects, or has failed to, returns)
      [] k = "cing" -> IF s.st = "cing" \/ \E o \in DOMAIN s.pend : s.pend[o].k = "connect" /\ s.pend[o].a.live THEN {0, 1} ELSE {0}
      [] OTHER -> {}

\* what the pending calls have been through
Note(s, p) == [p EXCEPT !.up = @ \/ s.st = "up",
                        !.dn = @ \/ s.st = "down" \/ (s.st = "cing" /\ s.was = "down"),
                        !.noc = @ \/ s.st \in {"off", "cing", "down"},
                        !.nup = @ \/ s.st # "up",
                        !.nd = @ \/ s.st # "down",
                        !.bz = @ \/ s.st \in {"cing", "up", "ended", "closed"},
                        !.em = @ \/ s.rq = <<>>,
                        !.ref = @ \/ s.st # "up" \/ s.disc \/ s.stop \/ s.mstop,
                        !.vs = IF p.k = "get" THEN @ \cup Vals(s, p.a.q) ELSE @]
U(s) == [s EXCEPT !.pend = [o \in DOMAIN s.pend |-> Note(s, s.pend[o])]]
Call(s, o, k, a) == U([s EXCEPT !.pend = (o :> [k |-> k, a |-> a, t |-> s.now, lin |-> FALSE, up |-> FALSE, dn |-> FALSE,
                                               nup |-> FALSE, nd |-> FALSE, bz |-> FALSE, noc |-> FALSE, must |-> FALSE, was |-> FALSE, em |-> FALSE, ref |-> FALSE, vs |-> {}]) @@ s.pend])
Drop(s, o) == [s EXCEPT !.pend = [x \in DOMAIN s.pend \ {o} |-> s.pend[x]]]
Lin(s, o) == [s EXCEPT !.pend[o].lin = TRUE]

\* a fresh connection
Fresh(s) == [s EXCEPT !.st = "up", !.gen = @ + 1, !.doom = FALSE, !.owed = FALSE, !.deaf = FALSE, !.disc = FALSE, !.stop = FALSE, !.why = {}, !.sq = <<>>, !.part = FALSE,
                      !.nid = IF s.even THEN 2 ELSE 1, !.rxq = <<>>, !.rq = <<>>, !.disp = NoH, !.busy = 0,
                      !.ltx = s.now, !.lrx = s.now, !.saLo = s.now + s.sa, !.saHi = s.now + s.sa,
                      !.naLo = s.now + s.na, !.naHi = s.now + s.na,
                      \* (a forced disconnect still under way may be meant for this one)
                      !.pend = [o \in DOMAIN s.pend |-> IF s.pend[o].k = "disc" /\ s.pend[o].a.f THEN [s.pend[o] EXCEPT !.lin = FALSE] ELSE s.pend[o]]]

---------------------------------------------------------------------------
(* steps taken by the end itself *)
Ka(k) == [k |-> k, o |-> 0, id |-> 0]

CanPush(s) == s.st = "up" /\ ~s.disc
Accept(s, o) == LET a == s.pend[o].a IN
    [s EXCEPT !.sq = Append(@, [k |-> "p", o |-> o, id |-> IF a.auto THEN s.nid ELSE a.id]),
              !.pend[o].a.id = IF a.auto THEN s.nid ELSE @,
              !.nid = IF a.auto THEN @ + 2 ELSE @]
PushSteps(s) == {[a |-> "push", o |-> o, s |-> U(Lin(Accept(s, o), o))] :
                    o \in {x \in DOMAIN s.pend : s.pend[x].k = "push" /\ ~s.pend[x].lin /\ CanPush(s)}}
PullSteps(s) == IF s.rq = <<>> THEN {} ELSE
    {[a |-> "pull", o |-> o, s |-> U([Lin(s, o) EXCEPT !.rq = Tail(@), !.pend[o].a.got = Head(s.rq).f])] :
                    o \in {x \in DOMAIN s.pend : s.pend[x].k = "pull" /\ ~s.pend[x].lin}}
BeginDisc(s) == [s EXCEPT !.disc = TRUE, !.sq = Append(@, Ka("kao"))]
DiscSteps(s) == {[a |-> "disc", o |-> o, s |-> U(Lin(BeginDisc(s), o))] :
                    o \in {x \in DOMAIN s.pend : s.pend[x].k = "disc" /\ ~s.pend[x].a.f /\ ~s.pend[x].lin /\ CanPush(s)}}
\* (a call that began before the connection was there may still end it)
KillSteps(s) == IF s.st # "up" \/ s.stop THEN {} ELSE
    {[a |-> "kill", o |-> o, s |-> U([Lin(s, o) EXCEPT !.stop = TRUE])] :
                    o \in {x \in DOMAIN s.pend : s.pend[x].k = "disc" /\ s.pend[x].a.f /\ ~s.pend[x].lin}}
SetH(s, a) == IF a.def THEN [s EXCEPT !.hd = a.h] ELSE [s EXCEPT !.hm = (a.n :> a.h) @@ @]
SethSteps(s) == {[a |-> "seth", o |-> o, s |-> Lin(SetH(s, s.pend[o].a), o)] :
                    o \in {x \in DOMAIN s.pend : s.pend[x].k = "seth" /\ ~s.pend[x].lin}}
\* the next received request is handed to the handler registered now, or queued
\* (no handler of this name was registered at one moment, a default handler or none at a later one, and it is queued after that)
LookSteps(s) == IF s.disp.h < 0 /\ s.st = "up" THEN LET s2 == [s EXCEPT !.rxq = Tail(@)] IN
        {[a |-> "late", o |-> 0, s |-> IF s.disp.h = -2 THEN U([s2 EXCEPT !.disp = NoH, !.rq = Append(@, Head(s.rxq))])
                                       ELSE IF s.hd = 0 THEN [s EXCEPT !.disp.h = -2] ELSE [s2 EXCEPT !.disp.h = s.hd]]}
    ELSE IF s.rxq = <<>> \/ ~Idle(s) \/ s.st # "up" THEN {} ELSE
    LET f == Head(s.rxq)
        h == Lookup(s, f.n)
        s2 == [s EXCEPT !.rxq = Tail(@)]
        \* pushes waiting for a response with this id
        W == {o \in DOMAIN s.pend : s.pend[o].k = "push" /\ s.pend[o].a.n # 0 /\ s.pend[o].lin /\ s.pend[o].a.got = 0 /\ s.pend[o].a.id = f.id}
    IN {[a |-> "resp", o |-> o, s |-> U([s2 EXCEPT !.pend[o].a.got = f.f])] : o \in W}
       \cup IF W # {} /\ "C24early" \in s.enf THEN {}
            ELSE IF s.two /\ Named(s, f.n) = 0 THEN {[a |-> "none", o |-> 0, s |-> [s EXCEPT !.disp = [f |-> f.f, h |-> -1]]]}
            ELSE {[a |-> "look", o |-> 0, s |-> IF h = 0 THEN U([s2 EXCEPT !.rq = Append(@, f)]) ELSE [s2 EXCEPT !.disp = [f |-> f.f, h |-> h]]]}
\* nothing sent for the keep-alive interval
OwedSteps(s) == IF ~s.owed \/ s.st # "up" \/ ~Idle(s) THEN {} ELSE
    {[a |-> "sa", o |-> 0, s |-> [s EXCEPT !.owed = FALSE, !.sq = IF s.disc THEN @ ELSE Append(@, Ka("kao"))]]}
SaSteps(s) == IF s.st # "up" \/ ~Idle(s) \/ s.now < s.saLo THEN {} ELSE
    LET r == [s EXCEPT !.saLo = s.now + s.sa, !.saHi = s.now + s.sa]
    IN {[a |-> "sa", o |-> 0, s |-> IF s.disc THEN r ELSE [r EXCEPT !.sq = Append(@, Ka(IF Mand(s) \/ s.part THEN "kao" ELSE "ka"))]]}
NaDue(s) == s.now >= s.naLo \/ s.doom
Justified(s) == s.stop \/ s.mstop \/ s.why # {} \/ NaDue(s) \/ (s.disc /\ Flushed(s))
EndLabels == {"C04", "C05", "C06", "C08", "C10", "C12", "C13", "C14", "C23", "C21"}
\* the end of the connection is what the waiting calls of these kinds wait for
\* (a call that has only just begun may be about to wait for the end of the next connection)
Must(s, K) == [s EXCEPT !.pend = [o \in DOMAIN s.pend |-> [s.pend[o] EXCEPT !.must = @ \/ (s.pend[o].k \in K /\ s.pend[o].was)]]]
Waiting(s) == [s EXCEPT !.doom = FALSE, !.owed = FALSE, !.deaf = @ \/ (s.st = "up" /\ s.disc /\ Idle(s)), !.pend = [o \in DOMAIN s.pend |-> [s.pend[o] EXCEPT !.was = TRUE]]]
EndSteps(s) == IF s.st # "up" \/ ~Idle(s) THEN {}
               ELSE IF ~G(s, EndLabels, Justified(s)) THEN {}
               ELSE IF ~G(s, {"C04", "C08", "C10"}, s.rxq = <<>>) THEN {}
               ELSE {[a |-> "end", o |-> 0, s |-> U(Must([s EXCEPT !.st = "ended"], {"pull"}))]}
ToDown(s) == U(Must([s EXCEPT !.st = "down"], {"wait", "disc"}))
DownSteps(s) == IF s.st # "closed" THEN {} ELSE {[a |-> "down", o |-> 0, s |-> ToDown(s)]}
\* of the connect calls at most one is carried out (live) at a time
Connects(s, live) == {x \in DOMAIN s.pend : s.pend[x].k = "connect" /\ s.pend[x].a.live = live /\ ~s.pend[x].a.fin /\ ~s.pend[x].lin}
StartSteps(s) == IF s.st \notin {"off", "down"} THEN {} ELSE
    {[a |-> "start", o |-> o, s |-> U([s EXCEPT !.pend[o].a.live = TRUE, !.st = "cing", !.was = s.st])] : o \in Connects(s, FALSE)}
UpSteps(s) == IF s.st # "cing" THEN {} ELSE
    {[a |-> "up", o |-> o, s |-> U([Lin(Fresh(s), o) EXCEPT !.pend[o].nup = FALSE])] : o \in Connects(s, TRUE)}
\* (only others that are about to connect can tell when a call fails)
MayFail(s, p) == G(s, {"C16", "C15", "C23"}, p.a.exp \notin {"ok", "late"})
FailSteps(s) == IF s.st # "cing" \/ Connects(s, FALSE) = {} THEN {} ELSE
    {[a |-> "fail", o |-> o, s |-> U([s EXCEPT !.st = s.was, !.pend[o].a.fin = TRUE])] : o \in {x \in Connects(s, TRUE) : MayFail(s, s.pend[x])}}

Silent(s) == PushSteps(s) \cup PullSteps(s) \cup DiscSteps(s) \cup KillSteps(s) \cup SethSteps(s) \cup LookSteps(s) \cup SaSteps(s) \cup OwedSteps(s)
             \cup EndSteps(s) \cup DownSteps(s) \cup StartSteps(s) \cup UpSteps(s) \cup FailSteps(s)

---------------------------------------------------------------------------
(* transmission *)
\* (an optional keep-alive may never have been queued: any number of them may be passed over)
RECURSIVE PastOpt(_)
PastOpt(sq) == {sq} \cup (IF sq # <<>> /\ Head(sq).k = "kao" THEN PastOpt(Tail(sq)) ELSE {})
RECURSIVE SkipOpt(_, _)
SkipOpt(sq, f) == IF sq = <<>> THEN sq ELSE IF Head(sq).k = "kao" /\ f.o # 0 THEN SkipOpt(Tail(sq), f) ELSE sq
Without(sq, o) == SelectSeq(sq, LAMBDA x : ~(x.o = o))
\* the frame f = [o, id] left completely; o = 0: a keep-alive, o < 0: nothing that was ever pushed
SendFrame(s, f) ==
    LET q == SkipOpt(s.sq, f)
        match == q # <<>> /\ (IF f.o = 0 THEN Head(q).k \in {"ka", "kao"} ELSE Head(q).o = f.o)
        idok == f.o <= 0 \/ ~match \/ Head(q).id = f.id
    IN IF ~G(s, IF f.o = 0 THEN {"C13", "C05", "C07"} ELSE {"C05", "C10", "C12", "C07"}, match) THEN {}
       ELSE IF ~G(s, {"C07"}, idok) THEN {}
       ELSE IF f.o = 0 /\ match THEN {[s EXCEPT !.sq = Tail(x)] : x \in {y \in PastOpt(q) : y # <<>> /\ Head(y).k \in {"ka", "kao"}}}
       ELSE {[s EXCEPT !.sq = IF match THEN Tail(q) ELSE IF f.o > 0 THEN Without(@, f.o) ELSE @]}
RECURSIVE SendFrames(_, _)
SendFrames(S, fr) == IF fr = <<>> THEN S ELSE SendFrames(UNION {SendFrame(x, Head(fr)) : x \in S}, Tail(fr))
Snd(s, e) ==
    IF ~G(s, {"C12", "C22", "C11", "C05", "C10"}, s.st = "up" /\ e.g = s.gen) THEN {}
    ELSE IF e.n <= 0 THEN {[s EXCEPT !.why = @ \cup {"serr"}]}
    ELSE LET s1 == [s EXCEPT !.ltx = s.now, !.saLo = s.now + s.sa, !.saHi = s.now + s.sa]
         IN {U([x EXCEPT !.part = e.part]) : x \in SendFrames({s1}, e.fr)}

(* reception *)
Bad(s, h) == h > s.max \/ h <= 4
RECURSIVE Upto(_, _)
Upto(fr, m) == IF fr = <<>> THEN <<>> ELSE IF Bad(m, Head(fr).len) THEN <<>> ELSE <<Head(fr)>> \o Upto(Tail(fr), m)
Rcv(s, e) ==
    IF ~G(s, {"C12", "C22", "C11", "C06"}, s.st = "up" /\ e.g = s.gen) THEN {}
    ELSE IF ~G(s, {"C06"}, "proto" \notin s.why) THEN {}
    \* (a peer that only stops sending does not cut a graceful disconnect short)
    ELSE IF e.n = 0 THEN {[s EXCEPT !.why = IF s.deaf /\ In(s, "C10") THEN @ ELSE @ \cup {"eof"}]}
    ELSE IF e.n < 0 THEN {[s EXCEPT !.why = @ \cup {"rerr"}]}
    ELSE LET over == \E i \in 1..Len(e.hd) : Bad(s, e.hd[i])
             ok == SelectSeq(Upto(e.fr, s), LAMBDA f : f.k = "req")
         IN {[s EXCEPT !.lrx = s.now, !.naLo = s.now + s.na, !.naHi = s.now + s.na,
                       !.why = IF over THEN @ \cup {"proto"} ELSE @,
                       !.rxq = @ \o [i \in 1..Len(ok) |-> [f |-> ok[i].f, n |-> ok[i].n, id |-> ok[i].id]]]}

(* handlers *)
NotF(q, f) == SelectSeq(q, LAMBDA x : x.f # f)
HCall(s, e) ==
    IF ~G(s, {"C04", "C08", "C06", "C13"}, s.disp.f = e.f) THEN {}
    ELSE IF ~G(s, {"C08"}, s.disp.h = e.h /\ s.busy = 0 /\ s.st = "up") THEN {}
    ELSE {U([s EXCEPT !.disp = NoH, !.busy = e.f, !.rxq = NotF(@, e.f), !.rq = NotF(@, e.f)])}
HRet(s, e) == {U([s EXCEPT !.busy = 0, !.naHi = Max(@, s.now + s.na)])}

(* the socket is closed; un bytes of the peer had not been read *)
Close(s, e) ==
    IF ~G(s, {"C12", "C11", "C22"}, s.st = "ended" /\ e.g = s.gen) THEN {}
    ELSE IF ~G(s, EndLabels, s.st # "up" \/ Justified(s)) THEN {}
    ELSE IF ~G(s, {"C19", "C11"}, s.held = 0) THEN {}
    ELSE IF ~G(s, {"C08", "C21"}, Idle(s)) THEN {}
    ELSE IF ~G(s, {"C10", "C04"}, e.un = 0 \/ s.disc \/ s.stop \/ s.mstop \/ NaDue(s) \/ s.why \cap {"proto", "eof", "rerr"} # {}) THEN {}
    ELSE {U([s EXCEPT !.st = "closed", !.disp = NoH, !.rxq = <<>>])}

---------------------------------------------------------------------------
(* calls.  C: the call begins, R: it returns e.v *)
Setting(s, q, v) ==
    CASE q = "sa" -> LET n == Max(v, 1) * 1000 IN
                     [s EXCEPT !.sa = n, !.owed = @ \/ (s.st = "up" /\ ~s.disc /\ s.now >= s.saLo), !.saLo = Min(@, Min(s.ltx, s.now) + n), !.saHi = Max(@, s.now + n)]
      [] q = "na" -> LET n == Max(v, 1) * 1000 IN
                     [s EXCEPT !.na = n, !.doom = @ \/ (s.st = "up" /\ s.now >= s.naLo), !.naLo = Min(@, Min(s.lrx, s.now) + n), !.naHi = Max(@, s.now + n)]
      [] q = "max" -> [s EXCEPT !.max = Max(v, 10)]
      [] q = "sbs" -> [s EXCEPT !.sbs = Max(v, 1)]
      [] q = "rbs" -> [s EXCEPT !.rbs = Max(v, 1)]
      [] q = "tag" -> [s EXCEPT !.tag = v]
      [] OTHER -> s
Settled(s, q, v) ==
    CASE q = "sa" -> [s EXCEPT !.saLo = Min(s.ltx, s.now) + s.sa, !.saHi = s.now + s.sa]
      [] q = "na" -> [s EXCEPT !.naLo = Min(s.lrx, s.now) + s.na, !.naHi = s.now + s.na]
      [] OTHER -> s

C(s, e) ==
    CASE e.f = "ctor" -> {U(Fresh(Call(s, e.o, "ctor", [x |-> 0])))}
      [] e.f = "connect" ->
            {Call(s, e.o, "connect", [live |-> FALSE, fin |-> FALSE, n |-> e.n, exp |-> e.exp])}
      [] e.f = "push" -> {Call(s, e.o, "push", [auto |-> e.auto, id |-> e.id, w |-> e.w, wg |-> e.wg, n |-> e.n, got |-> 0, ret |-> e.ret])}
      [] e.f = "pull" -> {Call(s, e.o, "pull", [n |-> e.n, ret |-> e.ret, got |-> 0])}
      [] e.f = "disc" -> {LET s1 == Call(s, e.o, "disc", [f |-> e.fc, w |-> e.w]) IN IF e.fc /\ s.st = "up" THEN U([Lin(s1, e.o) EXCEPT !.stop = TRUE]) ELSE s1}
      [] e.f = "wait" -> {Call(s, e.o, "wait", [n |-> e.n])}
      [] e.f = "get" -> {Call(s, e.o, "get", [q |-> e.q])}
      [] e.f = "seth" -> {Call(s, e.o, "seth", [def |-> e.def, n |-> e.n, h |-> e.h])}
      [] e.f = "set" -> {Setting(Call(s, e.o, "set", [q |-> e.q, v |-> e.n]), e.q, e.n)}
      [] e.f = "cfg" -> {Call(s, e.o, "cfg", [n |-> e.n])}
      [] e.f = "inc" -> {Call(s, e.o, "inc", [x |-> 0])}
      [] e.f = "dec" -> {LET s1 == Call(s, e.o, "dec", [x |-> 0]) IN [s1 EXCEPT !.held = Max(0, @ - 1)]}
      [] e.f = "dtor" -> {LET s1 == Call(s, e.o, "dtor", [x |-> 0]) IN IF s.st = "up" THEN U([s1 EXCEPT !.stop = TRUE]) ELSE s1}
      [] OTHER -> {Call(s, e.o, e.f, [x |-> 0])}

Over(s, p) == p.a.n > 0 /\ s.now >= p.t + p.a.n * 1000
\* no call outlasts its timeout (a connect call may try a little longer)
Late(s, p) == p.k \in {"connect", "pull", "wait", "push"} /\ p.a.n > 0 /\ s.now > p.t + p.a.n * 1000 + (IF p.k = "connect" THEN 1000 ELSE 200)
LateLabels(k) == CASE k = "connect" -> {"C16", "C23"} [] k = "pull" -> {"C09", "C23"} [] k = "wait" -> {"C12", "C23"} [] OTHER -> {"C24"}
R(s, e) ==
    LET p == s.pend[e.o]
        d == Drop(s, e.o)
    IN
    IF ~G(s, LateLabels(p.k), ~Late(s, p)) THEN {} ELSE
    CASE p.k = "connect" ->
            \* a call while connected, or while another one connects, changes nothing
            IF ~p.a.live THEN (IF G(s, {"C16"}, e.v = 0 /\ p.bz) THEN {d} ELSE {})
            ELSE IF e.v = 1
            THEN (IF p.lin THEN (IF G(s, {"C16"}, p.a.exp # "fail") THEN {d} ELSE {})
                  ELSE IF In(s, "C16") \/ p.a.fin THEN {} ELSE {U(Fresh(d))})
            \* (it may have ended already)
            ELSE IF p.lin THEN (IF G(s, {"C16"}, p.nup \/ p.a.exp = "fail") THEN {d} ELSE {})
            ELSE IF p.a.fin THEN {d}
            ELSE IF MayFail(s, p) THEN {U([d EXCEPT !.st = s.was])} ELSE {}
      [] p.k = "push" ->
            \* nothing but the response, and that one is not lost
            IF ~G(s, {"C24"}, p.a.got = e.v) THEN {}
            ELSE IF ~G(s, {"C24early"}, p.a.n = 0 \/ e.v # 0 \/ p.ref \/ Over(s, p)) THEN {}
            ELSE IF p.lin THEN {d}
            ELSE IF p.a.w = 0 THEN (IF p.ref THEN {d} ELSE {U(Drop(Accept(s, e.o), e.o))})
            \* transmitted, but when could it have been accepted in this order?
            ELSE IF G(s, {"C05", "C07", "C10", "C12"}, FALSE) THEN {U([Drop(Accept(s, e.o), e.o) EXCEPT !.wl = Max(@, p.a.w)])} ELSE {}
      [] p.k = "pull" ->
            IF e.v # 0 THEN (IF p.lin /\ p.a.got = e.v THEN {d}
                             ELSE IF G(s, {"C09", "C04", "C08", "C06", "C13"}, FALSE) THEN {[d EXCEPT !.rq = NotF(@, e.v), !.rxq = NotF(@, e.v)]} ELSE {})
            ELSE IF ~G(s, {"C09", "C04", "C08"}, ~p.lin /\ p.em) THEN {}
            ELSE IF ~G(s, {"C09", "C23"}, p.a.n = 0 \/ p.nup \/ Over(s, p)) THEN {}
            ELSE {d}
      [] p.k = "disc" ->
            IF ~G(s, {"C11", "C10", "C12", "C23"}, ~p.a.w \/ p.dn \/ p.noc) THEN {}
            ELSE (IF ~p.a.f /\ ~p.lin /\ CanPush(s) /\ ~s.stop THEN {U(BeginDisc(d))} ELSE {d})
                 \* (it may have come before the connection)
                 \cup (IF p.noc THEN {d} ELSE {})
      [] p.k = "wait" ->
            IF e.v = 1 THEN (IF G(s, {"C12", "C11", "C15", "C23"}, p.dn) THEN {d} ELSE {})
            ELSE IF G(s, {"C12", "C23"}, p.nd /\ (p.a.n = 0 \/ Over(s, p))) THEN {d} ELSE {}
      [] p.k = "get" -> IF G(s, {"C12", "C10", "C11", "C16"}, e.v \in p.vs) THEN {d} ELSE {}
      [] p.k = "seth" -> {IF p.lin THEN d ELSE SetH(d, p.a)}
      [] p.k = "set" -> LET x == IF p.a.q = "max" THEN Max(p.a.v, 10) ELSE IF p.a.q = "tag" THEN e.v ELSE Max(p.a.v, 1) IN
            IF G(s, IF p.a.q = "sa" THEN {"C13"} ELSE IF p.a.q = "na" THEN {"C14"} ELSE {"C06"}, e.v = x) THEN {Settled(d, p.a.q, p.a.v)} ELSE {}
      [] p.k = "cfg" -> LET h == IF p.a.n \in DOMAIN s.hm THEN s.hm[p.a.n] ELSE 0 IN
            IF G(s, {"C15"}, e.c = <<s.hd, h, s.sa \div 1000, s.na \div 1000, s.max, s.sbs, s.rbs, s.tag>>) THEN {d} ELSE {}
      [] p.k = "inc" -> {[d EXCEPT !.held = IF s.st \in {"closed", "down"} THEN @ ELSE @ + 1]}
      [] p.k = "dtor" -> IF G(s, {"C22", "C11"}, s.st \in {"down", "off"}) THEN {d} ELSE {}
      [] OTHER -> {d}

---------------------------------------------------------------------------
(* Nothing can happen until time passes (e.w: the socket accepts output, e.r: it has input or an end of input). *)
MayWait(s, p) ==
    CASE p.k = "pull" -> G(s, {"C09", "C23", "C21", "C12"}, ~p.lin /\ ~p.must /\ p.a.n # 0 /\ s.rq = <<>> /\ s.st \in {"up", "cing"} /\ ~Over(s, p))
      [] p.k = "wait" -> G(s, {"C12", "C11", "C23", "C21"}, p.a.n # 0 /\ ~p.must /\ s.st # "down" /\ ~Over(s, p))
      [] p.k = "disc" -> G(s, {"C11", "C10", "C12", "C21"}, p.a.w /\ ~p.must /\ s.st \notin {"off", "down"})
      [] p.k = "connect" -> G(s, {"C16", "C21"}, p.a.live /\ ~p.lin /\ p.a.exp \notin {"ok", "now"} /\ (p.a.n < 0 \/ s.now < p.t + p.a.n * 1000 + 1000))
      [] p.k = "dtor" -> G(s, {"C11", "C22", "C21"}, s.busy # 0 \/ s.held > 0)
      [] p.k = "push" -> G(s, {"C21", "C24", "C05"}, p.a.n # 0 /\ ~Over(s, p) /\ s.st = "up")
      [] OTHER -> G(s, {"C21", "C09", "C12", "C23"}, FALSE)
Quiet(s, e) ==
    /\ \A o \in DOMAIN s.pend : MayWait(s, s.pend[o])
    /\ G(s, {"C04", "C08", "C21"}, s.disp = NoH)
    /\ (s.st \in {"ended", "closed"}) => G(s, {"C12", "C11", "C10", "C14", "C19", "C21"}, s.st = "ended" /\ s.held > 0)
    /\ (s.st = "up" /\ Idle(s)) =>
        /\ G(s, {"C11", "C12", "C21"}, ~s.stop)
        /\ G(s, {"C06", "C12"}, s.why = {})
        \* (a last optional keep-alive may have to wait for the peer)
        /\ G(s, {"C10", "C12"}, ~(s.disc /\ Flushed(s) /\ (e.w \/ s.sq = <<>>)))
        /\ G(s, {"C14", "C12"}, s.now < s.naHi)
        /\ G(s, {"C13"}, s.disc \/ s.now < s.saHi)
        /\ G(s, {"C05", "C10", "C13", "C23", "C21"}, e.w => Flushed(s))
        /\ G(s, {"C04", "C06", "C12", "C14", "C23", "C21"}, e.r => s.disc)
        /\ G(s, {"C04", "C08"}, s.rxq = <<>>)

At(s, e) == [s EXCEPT !.now = e.t]

Next(s0, e) == LET s == At(s0, e) IN
    CASE e.k = "C" -> C(s, e)
      [] e.k = "R" -> R(s, e)
      [] e.k = "snd" -> Snd(s, e)
      [] e.k = "rcv" -> Rcv(s, e)
      \* the end learns that the connection is broken in both directions
      [] e.k = "hup" -> {IF s.st = "up" THEN [s EXCEPT !.why = @ \cup {"hup"}] ELSE s}
      [] e.k = "hcall" -> HCall(s, e)
      [] e.k = "hret" -> HRet(s, e)
      [] e.k = "close" -> Close(s, e)
      [] e.k = "q" -> IF Quiet(s, e) THEN {Waiting(s)} ELSE {}
      [] e.k = "sstop" -> {U([s EXCEPT !.mstop = TRUE])}
      [] e.k = "hold" -> {[s EXCEPT !.held = @ + 1]}
      [] e.k = "rel" -> {[s EXCEPT !.held = Max(0, @ - 1)]}
      \* the object is destroyed by the server that owns it
      [] e.k = "free" -> IF G(s, {"C22", "C18", "C19", "C12"}, s.st = "down" /\ s.held = 0) THEN {s} ELSE {}
      \* a descriptor that was closed is used
      [] e.k = "badfd" -> IF G(s, {"C22"}, FALSE) THEN {s} ELSE {}
      [] e.k = "changed" -> IF G(s, {"C05"}, FALSE) THEN {s} ELSE {}
      \* after everything was destroyed: descriptors still open, memory still allocated
      [] e.k = "end" -> IF G(s, {"C22"}, e.fds = 0 /\ e.mem = 0) THEN {s} ELSE {}
      \* the process crashed, or cannot continue
      [] e.k \in {"crash", "stuck"} -> {}
      [] OTHER -> {s}
=============================================================================
