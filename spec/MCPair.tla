------------------------------ MODULE MCPair ------------------------------
(* Two ends (Endpoint, everything enforced) joined by a byte stream in each direction: model checking of what the two
   ends guarantee together, over every interleaving of the users' calls, transmission, reception and time.

   End 1 is the connecting one.  out[x] is what end x has transmitted and the other end has not read yet. *)
EXTENDS Endpoint
CONSTANTS Ops1, Ops2, \* the calls users may make at the ends
          MaxOps,     \* the number of calls at each end
          Cap,        \* frames a stream holds
          Sa1, Sa2, Na1, Na2,   \* keep-alive intervals and silence limits in ms
          Step1,      \* time step in ms
          MaxT,       \* end of time
          Slow,       \* handlers may take time
          Handled     \* ends with a default handler
VARIABLES s, out, acc, dlv, no, half
vars == <<s, out, acc, dlv, no, half>>
E == {1, 2}
O(x) == 3 - x
Ops == <<Ops1, Ops2>>
Sa == <<Sa1, Sa2>>
Na == <<Na1, Na2>>

Start(x) == LET n == New(x = 2, {"*"})
            IN U(Fresh([n EXCEPT !.hd = IF x \in Handled THEN 1 ELSE 0, !.sa = Sa[x], !.na = Na[x]]))
Init == /\ s = [x \in E |-> Start(x)]
        /\ out = [x \in E |-> <<>>]
        /\ acc = [x \in E |-> <<>>]      \* accepted pushes, in the order in which they took effect: [o, id]
        /\ dlv = [x \in E |-> <<>>]      \* requests handed out at x (numbers of the pushes of the other end)
        /\ no = [x \in E |-> 0]
        /\ half = [x \in E |-> FALSE]    \* the first frame of out[x] is not complete yet

Closed(x) == s[x].st \in {"closed", "down"}
Same == UNCHANGED <<out, dlv, no, half>>
At1(e, x) == [t |-> s[x].now] @@ e
\* everything an event may lead to
Ev(x, e) == {n \in Next(s[x], At1(e, x)) : TRUE}
Put(x, n) == s' = [s EXCEPT ![x] = n]
\* pushes that took effect in the step from p to n
Acc(p, n) == LET k == Len(n.sq) IN IF k > 0 /\ n.sq # p.sq /\ Len(n.sq) > Len(p.sq) /\ n.sq[k].k = "p" THEN <<[o |-> n.sq[k].o, id |-> n.sq[k].id]>> ELSE <<>>
PutA(x, n) == Put(x, n) /\ acc' = [acc EXCEPT ![x] = @ \o Acc(s[x], n)]

\* ---- users
CallOf(f, o) ==
    CASE f = "push" -> [k |-> "C", f |-> "push", o |-> o, auto |-> TRUE, id |-> 0, w |-> 0, wg |-> 0, n |-> 0, ret |-> 0]
      [] f = "pull" -> [k |-> "C", f |-> "pull", o |-> o, n |-> -1, ret |-> 0]
      [] f = "poll" -> [k |-> "C", f |-> "pull", o |-> o, n |-> 0, ret |-> 0]
      [] f = "disc" -> [k |-> "C", f |-> "disc", o |-> o, fc |-> FALSE, w |-> FALSE]
      [] f = "discw" -> [k |-> "C", f |-> "disc", o |-> o, fc |-> FALSE, w |-> TRUE]
      [] f = "kill" -> [k |-> "C", f |-> "disc", o |-> o, fc |-> TRUE, w |-> FALSE]
      [] f = "wait" -> [k |-> "C", f |-> "wait", o |-> o, n |-> -1]
UCall(x) == /\ no[x] < MaxOps
            /\ \E f \in Ops[x] : \E n \in Ev(x, CallOf(f, no[x] + 1)) : PutA(x, n)
            /\ no' = [no EXCEPT ![x] = @ + 1]
            /\ UNCHANGED <<out, dlv, half>>
\* (pulled requests are handed out when the call takes effect)
UReturn(x) == \E o \in DOMAIN s[x].pend :
    LET p == s[x].pend[o]
        V == IF p.k = "pull" THEN {IF p.lin THEN p.a.got ELSE 0} ELSE IF p.k = "push" THEN {0} ELSE {1}
    IN \E v \in V : \E n \in Ev(x, [k |-> "R", o |-> o, v |-> v]) : PutA(x, n) /\ Same

\* ---- an end by itself
Silent1(x) == \E y \in Silent(s[x]) :
    /\ y.a # "up"
    \* an end does not begin before everything receivable is received
    /\ y.a = "end" => Next(y.s, [k |-> "close", g |-> 1, un |-> Len(out[O(x)]), t |-> s[x].now]) # {}
    /\ PutA(x, y.s)
    /\ dlv' = IF y.a = "pull" THEN [dlv EXCEPT ![x] = Append(@, Head(s[x].rq).f)] ELSE dlv
    /\ UNCHANGED <<out, no, half>>
Handler(x) ==
    /\ \/ s[x].disp # NoH /\ \E n \in Ev(x, [k |-> "hcall", f |-> s[x].disp.f, h |-> s[x].disp.h]) :
            Put(x, n) /\ dlv' = [dlv EXCEPT ![x] = Append(@, s[x].disp.f)]
       \/ s[x].busy # 0 /\ \E n \in Ev(x, [k |-> "hret"]) : Put(x, n) /\ UNCHANGED dlv
    /\ UNCHANGED <<out, acc, no, half>>

\* ---- transmission: the first part of a frame, or the rest
RECURSIVE First(_)
First(sq) == IF sq = <<>> THEN {} ELSE IF Head(sq).k = "p" THEN {[o |-> Head(sq).o, id |-> Head(sq).id]}
             ELSE {[o |-> 0, id |-> 0]} \cup (IF Head(sq).k = "kao" THEN First(Tail(sq)) ELSE {})
Send(x) ==
    /\ s[x].st = "up" /\ ~Closed(O(x)) /\ s[x].busy = 0
    /\ \/ /\ ~half[x] /\ First(s[x].sq) # {} /\ Len(out[x]) < Cap
          /\ \E n \in Ev(x, [k |-> "snd", g |-> 1, n |-> 1, part |-> TRUE, fr |-> <<>>]) : Put(x, n)
          /\ half' = [half EXCEPT ![x] = TRUE] /\ UNCHANGED out
       \/ /\ half[x]
          /\ \E f \in First(s[x].sq) : /\ \E n \in Ev(x, [k |-> "snd", g |-> 1, n |-> 1, part |-> FALSE, fr |-> <<f>>]) : Put(x, n)
                                       /\ out' = [out EXCEPT ![x] = Append(@, f)]
          /\ half' = [half EXCEPT ![x] = FALSE]
    /\ UNCHANGED <<acc, dlv, no>>
SendErr(x) == /\ s[x].st = "up" /\ Closed(O(x)) /\ s[x].sq # <<>> /\ s[x].busy = 0
              /\ \E n \in Ev(x, [k |-> "snd", g |-> 1, n |-> -1, part |-> FALSE, fr |-> <<>>]) : Put(x, n)
              /\ UNCHANGED <<out, acc, dlv, no, half>>
\* ---- reception
FrameOf(f) == IF f.o = 0 THEN [f |-> 0, k |-> "ka", n |-> "", id |-> 0, len |-> 11] ELSE [f |-> f.o, k |-> "req", n |-> "a", id |-> f.id, len |-> 20]
Recv(x) ==
    /\ s[x].st = "up" /\ ~s[x].disc /\ Idle(s[x])
    /\ \/ /\ out[O(x)] # <<>>
          /\ LET f == FrameOf(Head(out[O(x)])) IN \E n \in Ev(x, [k |-> "rcv", g |-> 1, n |-> 1, hd |-> <<f.len>>, fr |-> <<f>>]) : Put(x, n)
          /\ out' = [out EXCEPT ![O(x)] = Tail(@)]
       \/ /\ out[O(x)] = <<>> /\ Closed(O(x))
          /\ \E n \in Ev(x, [k |-> "rcv", g |-> 1, n |-> 0, hd |-> <<>>, fr |-> <<>>]) : Put(x, n)
          /\ UNCHANGED out
    /\ UNCHANGED <<acc, dlv, no, half>>
Hup(x) == /\ s[x].st = "up" /\ Closed(O(x)) /\ s[x].disc
          /\ \E n \in Ev(x, [k |-> "hup"]) : Put(x, n)
          /\ UNCHANGED <<out, acc, dlv, no, half>>
CloseIt(x) == /\ s[x].st = "ended"
              /\ \E n \in Ev(x, [k |-> "close", g |-> 1, un |-> Len(out[O(x)])]) : Put(x, n)
              /\ UNCHANGED <<out, acc, dlv, no, half>>
\* ---- time
W(x) == Len(out[x]) < Cap \/ Closed(O(x)) \/ half[x]
Rd(x) == out[O(x)] # <<>> \/ Closed(O(x))
Still == \A x \in E : Quiet(s[x], [w |-> W(x), r |-> Rd(x)])
Tick == /\ s[1].now + Step1 <= MaxT /\ Still
        /\ Slow \/ \A x \in E : Idle(s[x])
        /\ s' = [x \in E |-> [s[x] EXCEPT !.now = @ + Step1]]
        /\ UNCHANGED <<out, acc, dlv, no, half>>
Over1 == s[1].now + Step1 > MaxT /\ Still /\ UNCHANGED vars
Done == /\ \A x \in E : s[x].st = "down" /\ DOMAIN s[x].pend = {} /\ UNCHANGED vars

\* what has taken effect returns at once (nobody can tell the difference)
Ready(x) == \E o \in DOMAIN s[x].pend : LET p == s[x].pend[o] IN (p.lin /\ (p.k = "disc" => ~p.a.w \/ p.dn)) \/ (p.k = "push" /\ p.ref)
NextAll == IF \E x \in E : Ready(x) THEN \E x \in E : UReturn(x) ELSE Tick \/ Over1 \/ Done
        \/ \E x \in E : UCall(x) \/ UReturn(x) \/ Silent1(x) \/ Handler(x) \/ Send(x) \/ SendErr(x) \/ Recv(x) \/ Hup(x) \/ CloseIt(x)
Spec == Init /\ [][NextAll]_vars

---------------------------------------------------------------------------
Num(x) == [i \in 1..Len(acc[x]) |-> acc[x][i].o]
Prefix(p, q) == Len(p) <= Len(q) /\ \A i \in 1..Len(p) : p[i] = q[i]
RECURSIVE Reqs(_)
Reqs(q) == IF q = <<>> THEN <<>> ELSE IF Head(q).o = 0 THEN Reqs(Tail(q)) ELSE <<Head(q).o>> \o Reqs(Tail(q))
Fs(q) == [i \in 1..Len(q) |-> q[i].f]
InHand(x) == IF s[x].disp = NoH THEN <<>> ELSE <<s[x].disp.f>>
\* C04 C05 C08 C09 C13: what one end handed out is a prefix of what the other end accepted, and nothing is lost on the way
Delivered == \A x \in E : Prefix(dlv[x], Num(O(x)))
\* (a frame is at exactly one place: the send queue, the stream, received, in hand, queued or handed out)
Conserved == \A x \in E : (s[x].st = "up" /\ s[O(x)].st = "up") =>
    dlv[x] \o Fs(s[x].rq) \o InHand(x) \o Fs(s[x].rxq) \o Reqs(out[O(x)]) \o Reqs(s[O(x)].sq) = Num(O(x))
\* C07
Ids == /\ \A x \in E : \A i \in 1..Len(acc[x]) : acc[x][i].id = 2 * i - (IF x = 1 THEN 1 ELSE 0)
       /\ \A i \in 1..Len(acc[1]), j \in 1..Len(acc[2]) : acc[1][i].id # acc[2][j].id
\* C10: a graceful end leaves nothing accepted behind
Graceful(x) == s[x].disc /\ ~s[x].stop /\ s[x].why = {} /\ s[x].now < s[x].naLo
NothingLost == \A x \in E : (s[x].st \in {"ended", "closed", "down"} /\ Graceful(x)) => ~\E i \in 1..Len(s[x].sq) : s[x].sq[i].k = "p"
\* C10: ... and a receiving end that stays up until then has it all when it sees the end
AllArrived == \A x \in E : (Closed(x) /\ Graceful(x) /\ s[O(x)].st # "up" /\ ~s[O(x)].disc /\ ~s[O(x)].stop /\ s[O(x)].why \subseteq {"eof"} /\ s[O(x)].now < s[O(x)].naLo)
                  => dlv[O(x)] \o Fs(s[O(x)].rq) \o InHand(O(x)) \o Fs(s[O(x)].rxq) = Num(x)
\* C12: an end has a reason
Reason == \A x \in E : s[x].st \in {"ended", "closed", "down"} => (s[x].disc \/ s[x].stop \/ s[x].why # {} \/ s[x].now >= s[x].naLo)
\* C13: with nobody disconnecting, both ends stay up for ever
StaysUp == \A x \in E : s[x].st = "up"
\* C12, C21: after the end nobody waits
NobodyWaits == \A x \in E : (s[x].st = "down" /\ Still) => DOMAIN s[x].pend = {}

\* ---- what eventually happens, provided that every end keeps running and time passes
Fair == /\ WF_vars(Tick)
        /\ \A x \in E : WF_vars(UReturn(x)) /\ WF_vars(Silent1(x)) /\ WF_vars(Handler(x)) /\ WF_vars(Send(x)) /\ WF_vars(SendErr(x))
                       /\ WF_vars(Recv(x)) /\ WF_vars(Hup(x)) /\ WF_vars(CloseIt(x))
FairSpec == Spec /\ Fair
\* C10, C11, C12: a disconnect, of either kind, ends the connection at both ends (streams are read until then)
Ends == \A x \in E : (s[x].disc \/ s[x].stop) ~> (s[1].st = "down" /\ s[2].st = "down")
\* C12, C21: ... and all calls return
Returns == \A x \in E : (s[x].disc \/ s[x].stop) ~> (DOMAIN s[1].pend = {} /\ DOMAIN s[2].pend = {})
\* C04, C05, C08: while nobody disconnects, everything accepted is handed out by an end with a handler
Arrives == \A x \in E : (s[x].st = "up" /\ O(x) \in Handled /\ Len(acc[x]) > Len(dlv[O(x)])) ~> (dlv[O(x)] = Num(x) \/ s[x].st # "up" \/ s[O(x)].st # "up")
=============================================================================
