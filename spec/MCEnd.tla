------------------------------- MODULE MCEnd -------------------------------
(* One end (Endpoint, everything enforced) between its users and a peer that may send anything, close, break or stop
   reading at any time.  Stimuli (of users, peer and clock) are applied one after the other, and the end runs until
   nothing is left to do.  TLC enumerates every sequence of stimuli up to Depth (one per abstract state and stimulus);
   with Emit each is printed, and the harness plays it against the real code (vf/enum.py). *)
EXTENDS Endpoint, Json
CONSTANTS Depth,    \* number of stimuli
          Emit,
          Stims,    \* the stimuli used
          Sa0, Na0, \* keep-alive interval and silence limit, ms
          Big       \* frames a peer that does not read lets through
VARIABLES m, hist
vars == <<m, hist>>

(* m.s: the end; in: frames it can read; hp: half of another frame is there; cl: open, shut (it sends no more), eof or rst; lag: transmitted
   frames the peer has not read; hk: the kind of the default handler; hb: the instant a slow handler returns;
   no: operation number, nf: frame number *)
Start == [s |-> [New(FALSE, {"*"}) EXCEPT !.sa = Sa0, !.na = Na0], in |-> <<>>, hp |-> FALSE, cl |-> "none", lag |-> 0,
          hk |-> 0, hb |-> 0, no |-> 0, nf |-> 0, blk |-> FALSE, got |-> <<>>]

One(S) == CHOOSE x \in S : TRUE
Fr(x, k, len) == [f |-> x.nf + 1, k |-> k, n |-> "a", id |-> x.nf + 1, len |-> len]

---------------------------------------------------------------------------
(* the end runs: one step, by a fixed order of preference *)
Evt(x, e) == [x EXCEPT !.s = One(Next(x.s, [t |-> x.s.now] @@ e))]
CanEnd(x) == \E y \in EndSteps(x.s) : Next(y.s, [k |-> "close", g |-> x.s.gen, un |-> Len(x.in), t |-> x.s.now]) # {}
PSteps(s) == PushSteps(s) \cup PullSteps(s) \cup DiscSteps(s) \cup SethSteps(s) \cup LookSteps(s) \cup DownSteps(s) \cup StartSteps(s)
             \cup {y \in UpSteps(s) : s.pend[y.o].a.exp = "ok"}
Gone(x) == x.cl \in {"eof", "rst"}
Readable(x) == x.in # <<>> \/ Gone(x) \/ x.cl = "shut"
Kind(f) == IF f.k = "req" THEN <<f>> ELSE <<>>
Returns(x) == {o \in DOMAIN x.s.pend : LET p == x.s.pend[o] IN
    \E v \in {0, 1} : LET r == IF p.k = "pull" /\ p.lin THEN p.a.got ELSE v IN
        /\ p.k \in {"connect", "pull", "push"} => (v = IF p.lin /\ p.k = "connect" THEN 1 ELSE 0)
        /\ p.k = "wait" => (v = IF p.dn THEN 1 ELSE 0)
        /\ p.k = "push" => (p.lin \/ p.ref)
        /\ p.k = "connect" => (p.lin \/ ~p.a.live \/ p.a.exp = "fail")
        /\ (p.k = "disc" /\ ~p.lin /\ ~p.a.f) => ~CanPush(x.s)
        /\ Next(x.s, [k |-> "R", o |-> o, v |-> r, t |-> x.s.now]) # {}}
RetVal(x, o) == LET p == x.s.pend[o] IN IF p.k = "pull" /\ p.lin THEN p.a.got ELSE IF p.k = "connect" /\ p.lin THEN 1 ELSE IF p.k = "wait" /\ p.dn THEN 1
                ELSE IF p.k \in {"connect", "pull", "push", "wait"} THEN 0 ELSE 1
Push1(x) == LET o == x.no + 1 IN
    [Evt(x, [k |-> "C", f |-> "push", o |-> o, auto |-> TRUE, id |-> 0, w |-> 0, wg |-> 0, n |-> 0, ret |-> 0]) EXCEPT !.no = o]
Kill1(x, f) == LET o == x.no + 1 IN [Evt(x, [k |-> "C", f |-> "disc", o |-> o, fc |-> f, w |-> FALSE]) EXCEPT !.no = o]
OneStep(x) ==
    LET s == x.s IN
    IF PSteps(s) # {} THEN [x EXCEPT !.s = One(PSteps(s)).s]
    ELSE IF Returns(x) # {} THEN LET o == One(Returns(x)) IN Evt(x, [k |-> "R", o |-> o, v |-> RetVal(x, o)])
    ELSE IF s.disp # NoH THEN LET y == Evt(x, [k |-> "hcall", f |-> s.disp.f, h |-> s.disp.h])
                                  z == [y EXCEPT !.got = Append(@, s.disp.f)]
                              IN CASE s.disp.h = 2 -> [Push1(z) EXCEPT !.hb = s.now]
                                   [] s.disp.h = 3 -> [Kill1(z, TRUE) EXCEPT !.hb = s.now]
                                   [] s.disp.h = 4 -> [z EXCEPT !.hb = s.now + 2100]
                                   [] s.disp.h = 5 -> [Kill1(z, FALSE) EXCEPT !.hb = s.now]
                                   [] OTHER -> [z EXCEPT !.hb = s.now]
    ELSE IF s.busy # 0 THEN (IF s.now >= x.hb THEN Evt(x, [k |-> "hret"]) ELSE x)
    ELSE IF s.st = "ended" THEN Evt([x EXCEPT !.in = <<>>, !.hp = FALSE], [k |-> "close", g |-> s.gen, un |-> Len(x.in)])
    ELSE IF s.st # "up" THEN x
    ELSE IF s.stop \/ "proto" \in s.why THEN [x EXCEPT !.s = One(EndSteps(s)).s]
    ELSE IF ~s.disc /\ Readable(x) /\ s.why = {} THEN
        (IF x.in # <<>> THEN [Evt(x, [k |-> "rcv", g |-> s.gen, n |-> 1, hd |-> <<Head(x.in).len>>, fr |-> Kind(Head(x.in))]) EXCEPT !.in = Tail(@)]
         ELSE Evt(x, [k |-> "rcv", g |-> s.gen, n |-> IF x.cl \in {"eof", "shut"} THEN 0 ELSE -1, hd |-> <<>>, fr |-> <<>>]))
    ELSE IF (Mand(s) \/ s.sq # <<>>) /\ x.cl \in {"open", "shut"} /\ x.lag < Big THEN
        LET i == CHOOSE j \in 1..Len(s.sq) : s.sq[j].k # "kao" \/ j = Len(s.sq)
            f == s.sq[i]
        IN [Evt(x, [k |-> "snd", g |-> s.gen, n |-> 1, part |-> FALSE, fr |-> <<[o |-> f.o, id |-> f.id]>>]) EXCEPT !.lag = IF f.o = 0 THEN @ ELSE @ + 1]
    ELSE IF s.sq # <<>> /\ Gone(x) /\ s.why = {} THEN Evt(x, [k |-> "snd", g |-> s.gen, n |-> -1, part |-> FALSE, fr |-> <<>>])
    ELSE IF s.disc /\ Gone(x) /\ s.why = {} THEN Evt(x, [k |-> "hup"])
    ELSE IF EndSteps(s) # {} /\ CanEnd(x) /\ (s.why # {} \/ s.disc \/ s.now >= s.naLo) THEN [x EXCEPT !.s = One(EndSteps(s)).s]
    ELSE IF SaSteps(s) # {} THEN [x EXCEPT !.s = One(SaSteps(s)).s]
    ELSE x
RECURSIVE Run(_)
Run(x) == LET y == OneStep(x) IN IF y = x THEN x ELSE Run(y)
\* time passes until the instant T, stopping at every deadline on the way
Deadlines(x, T) == {d \in {x.hb, x.s.saLo, x.s.naLo} \cup {x.s.pend[o].t + x.s.pend[o].a.n * 1000 :
                        o \in {y \in DOMAIN x.s.pend : x.s.pend[y].k \in {"pull", "wait"} /\ x.s.pend[y].a.n > 0}} : d > x.s.now /\ d < T}
Least(S) == CHOOSE d \in S : \A e \in S : d <= e
RECURSIVE Pass(_, _)
Pass(x, T) == LET D == Deadlines(x, T) IN IF D = {} THEN Run([x EXCEPT !.s.now = T]) ELSE Pass(Run([x EXCEPT !.s.now = Least(D)]), T)

---------------------------------------------------------------------------
(* stimuli *)
Op(x, e) == [Evt(x, [o |-> x.no + 1] @@ e) EXCEPT !.no = @ + 1]
\* a peer that has gone away, or the end that has, leaves nothing behind
NPend(x, k) == Cardinality({o \in DOMAIN x.s.pend : x.s.pend[o].k = k})
Alive(x) == x.s.st \in {"up", "ended"}
Peer(x) == x.cl \in {"open", "shut"} /\ x.s.st \in {"up", "ended", "closed", "down"}
In1(x, k, len) == [x EXCEPT !.in = IF x.s.st = "up" THEN Append(@, Fr(x, k, len)) ELSE @, !.nf = @ + 1]
NewPeer(x) == [x EXCEPT !.cl = "open", !.in = <<>>, !.hp = FALSE, !.lag = 0]
Do(x, l) ==
    CASE l = "conn" -> IF x.s.st \in {"off", "down"} THEN {Op(NewPeer(x), [k |-> "C", f |-> "connect", n |-> 30, exp |-> "ok"])} ELSE {}
      [] l = "connx" -> IF x.s.st \in {"off", "down"} THEN {Op(x, [k |-> "C", f |-> "connect", n |-> 1, exp |-> "fail"])} ELSE {}
      [] l = "connb" -> IF x.s.st = "up" THEN {Op(x, [k |-> "C", f |-> "connect", n |-> 1, exp |-> "any"])} ELSE {}
      [] l = "push" -> IF x.no < 60 THEN {Push1(x)} ELSE {}
      [] l = "poll" -> {Op(x, [k |-> "C", f |-> "pull", n |-> 0, ret |-> 0])}
      [] l = "pull" -> IF NPend(x, "pull") < 1 THEN {Op(x, [k |-> "C", f |-> "pull", n |-> -1, ret |-> 0])} ELSE {}
      [] l = "pull1" -> IF NPend(x, "pull") < 2 THEN {Op(x, [k |-> "C", f |-> "pull", n |-> 1, ret |-> 0])} ELSE {}
      [] l = "wait" -> IF NPend(x, "wait") < 1 THEN {Op(x, [k |-> "C", f |-> "wait", n |-> -1])} ELSE {}
      [] l = "wait1" -> IF NPend(x, "wait") < 1 THEN {Op(x, [k |-> "C", f |-> "wait", n |-> 1])} ELSE {}
      [] l = "disc" -> {Kill1(x, FALSE)}
      [] l = "discw" -> IF NPend(x, "disc") < 1 THEN {Op(x, [k |-> "C", f |-> "disc", fc |-> FALSE, w |-> TRUE])} ELSE {}
      [] l = "kill" -> {Kill1(x, TRUE)}
      [] l = "killw" -> IF NPend(x, "disc") < 1 THEN {Op(x, [k |-> "C", f |-> "disc", fc |-> TRUE, w |-> TRUE])} ELSE {}
      [] l \in {"h0", "h1", "h2", "h3", "h4", "h5"} ->
            LET h == CASE l = "h0" -> 0 [] l = "h1" -> 1 [] l = "h2" -> 2 [] l = "h3" -> 3 [] l = "h4" -> 4 [] OTHER -> 5
            IN IF h = x.hk THEN {} ELSE {[Op(x, [k |-> "C", f |-> "seth", def |-> TRUE, n |-> "", h |-> h]) EXCEPT !.hk = h]}
      [] l = "pf" -> IF x.cl = "open" /\ ~x.hp THEN {In1(x, "req", 30)} ELSE {}
      [] l = "pk" -> IF x.cl = "open" /\ ~x.hp THEN {In1(x, "ka", 11)} ELSE {}
      [] l = "pj" -> IF x.cl = "open" /\ ~x.hp THEN {In1(x, "junk", 30)} ELSE {}
      [] l = "pz" -> IF x.cl = "open" /\ ~x.hp THEN {In1(x, "junk", 3)} ELSE {}
      [] l = "ph" -> IF x.cl = "open" /\ ~x.hp THEN {[(IF x.s.st = "up" /\ ~x.s.disc /\ x.s.busy = 0
                         THEN Evt(x, [k |-> "rcv", g |-> x.s.gen, n |-> 9, hd |-> <<30>>, fr |-> <<>>]) ELSE x) EXCEPT !.hp = TRUE]} ELSE {}
      [] l = "pr" -> IF x.cl = "open" /\ x.hp THEN {[In1(x, "req", 30) EXCEPT !.hp = FALSE]} ELSE {}
      [] l = "pc" -> IF Peer(x) THEN {[x EXCEPT !.cl = "eof"]} ELSE {}
      [] l = "ps" -> IF x.cl = "open" /\ Peer(x) THEN {[x EXCEPT !.cl = "shut"]} ELSE {}
      [] l = "px" -> IF Peer(x) THEN {[x EXCEPT !.cl = "rst"]} ELSE {}
      [] l = "pd" -> IF Peer(x) /\ x.lag > 0 THEN {[x EXCEPT !.lag = 0]} ELSE {}
      [] l = "t" -> {x}
      [] OTHER -> {}
After(x, l) == IF l = "t" THEN Pass(x, x.s.now + 2100) ELSE Run(x)

---------------------------------------------------------------------------
Init == m = Start /\ hist = <<>>
Step == /\ Len(hist) < Depth
        /\ \E l \in Stims : \E y \in Do(m, l) :
            /\ m' = After(y, l) /\ hist' = Append(hist, l)
            /\ Emit => PrintT("SEQ " \o ToJson(hist'))
Spec == Init /\ [][Step]_vars

\* what tells states apart
PK(s) == {<<s.pend[o].k, s.pend[o].a>> : o \in {x \in DOMAIN s.pend : s.pend[x].k \in {"wait", "disc"}}}
View == LET s == m.s IN <<s.st, Min(s.gen, 2), s.disc, s.stop, s.why, Min(Len(s.sq), 2), Min(Len(s.rq), 2), Min(Len(m.in), 2), m.hp, m.cl, Min(m.lag, Big), m.hk,
         s.busy # 0, PK(s), NPend(m, "pull"), IF s.st = "up" THEN <<s.saLo - s.now, s.naLo - s.now>> ELSE <<>>>>

\* the specification always lets an end settle
Settles == LET w == (m.cl \in {"open", "shut"} /\ m.lag < Big) \/ Gone(m) IN m.s.st = "cing" \/ Quiet(m.s, [w |-> w, r |-> Readable(m)])
\* what was handed to a handler came in order
InOrder == \A i \in 1..(Len(m.got) - 1) : m.got[i] < m.got[i + 1]
=============================================================================
