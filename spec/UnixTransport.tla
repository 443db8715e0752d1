--------------------------- MODULE UnixTransport ---------------------------
(***************************************************************************)
(* The unix socket transport as it is built: requester threads, one worker *)
(* thread per transport, message streams in both directions, the map of    *)
(* outstanding requests, the broadcast queue, the death of the server.     *)
(* One action per critical section. Refines Rpc (see Refines). The flags   *)
(* switch single design decisions off, which TLC then has to refute.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS
  Clients,      \* set of clients
  Requests,     \* set of request ids (positive numbers)
  Plan,         \* function: request -> [c, ep]
  Served,       \* endpoints the server has
  Answering,    \* those that answer
  MaxB,         \* number of broadcasts
  CanKill, CanDrop, CanClose,
  RegisterFirst,  \* a request is registered before it is sent
  Fifo,           \* broadcasts are taken from the front of the queue
  FailOnLoss,     \* losing the connection fails the outstanding requests
  OnlyIdZero,     \* only messages with id 0 are broadcasts
  KeyById         \* responses are matched by their id, not by their endpoint only

VARIABLES
  pc,      \* request -> "no", "begun", "reg", "sent", "ret"
  outst,   \* client -> set of registered requests
  held,    \* request -> the future is still held
  fut,     \* request -> "none", "value", "error"
  val,     \* request -> the value of its future
  conn,    \* client -> "no", "backlog", "accepted", "gone" (by the server), "closed"
  lost,    \* client -> it noticed the loss
  c2s, s2c,\* client -> messages in flight
  hnd,     \* request -> "no", "handled", "replied", "mute": history of the server
  cur,     \* what the worker of the server is doing
  bqueue,  \* broadcasts waiting in the server
  bhist,   \* all broadcasts issued
  dlv,     \* client -> sequence of broadcasts its endpoint saw
  wrong,   \* client -> something that isn't a broadcast was handed to its endpoint
  must,    \* client -> first broadcast that must reach it, 0 if not yet known
  bef,     \* request -> requests of this client whose call returned before it was made
  alive

ivars == <<pc, outst, held, fut, val, conn, lost, c2s, s2c, hnd, cur, bqueue, bhist, dlv, wrong, must, bef, alive>>

Idle == [op |-> "idle"]
Init ==
  /\ pc = [r \in Requests |-> "no"] /\ outst = [c \in Clients |-> {}]
  /\ held = [r \in Requests |-> TRUE] /\ fut = [r \in Requests |-> "none"] /\ val = [r \in Requests |-> "-"]
  /\ conn = [c \in Clients |-> "no"] /\ lost = [c \in Clients |-> FALSE]
  /\ c2s = [c \in Clients |-> <<>>] /\ s2c = [c \in Clients |-> <<>>]
  /\ hnd = [r \in Requests |-> "no"] /\ cur = Idle /\ bqueue = <<>> /\ bhist = <<>>
  /\ dlv = [c \in Clients |-> <<>>] /\ wrong = [c \in Clients |-> FALSE] /\ must = [c \in Clients |-> 0]
  /\ bef = [r \in Requests |-> {}] /\ alive = TRUE

C(r) == Plan[r].c
Up(c) == conn[c] \in {"backlog", "accepted"} /\ alive
Usable(c) == conn[c] \notin {"no", "closed"}

\* ---- requester threads
Begin(r) ==
  /\ pc[r] = "no" /\ Usable(C(r)) /\ \A q \in Requests : q < r /\ C(q) = C(r) => pc[q] # "no"
  /\ pc' = [pc EXCEPT ![r] = IF RegisterFirst THEN "reg" ELSE "begun"]
  /\ outst' = IF RegisterFirst THEN [outst EXCEPT ![C(r)] = @ \cup {r}] ELSE outst
  /\ bef' = [bef EXCEPT ![r] = {q \in Requests : C(q) = C(r) /\ pc[q] = "ret"}]
  /\ UNCHANGED <<held, fut, val, conn, lost, c2s, s2c, hnd, cur, bqueue, bhist, dlv, wrong, must, alive>>
Send(r) ==
  /\ pc[r] = IF RegisterFirst THEN "reg" ELSE "begun"
  /\ pc' = [pc EXCEPT ![r] = "sent"]
  /\ IF Up(C(r)) /\ ~lost[C(r)]
     THEN /\ c2s' = [c2s EXCEPT ![C(r)] = Append(@, r)]
          /\ UNCHANGED <<outst, fut>>
     ELSE /\ c2s' = c2s
          /\ fut' = IF r \in outst[C(r)] \/ ~RegisterFirst THEN [fut EXCEPT ![r] = "error"] ELSE fut
          /\ outst' = [outst EXCEPT ![C(r)] = @ \ {r}]
  /\ UNCHANGED <<held, val, conn, lost, s2c, hnd, cur, bqueue, bhist, dlv, wrong, must, bef, alive>>
Return(r) ==
  /\ pc[r] = "sent" /\ pc' = [pc EXCEPT ![r] = "ret"]
  /\ outst' = IF RegisterFirst \/ fut[r] = "error" THEN outst ELSE [outst EXCEPT ![C(r)] = @ \cup {r}]
  /\ UNCHANGED <<held, fut, val, conn, lost, c2s, s2c, hnd, cur, bqueue, bhist, dlv, wrong, must, bef, alive>>
Drop(r) ==
  /\ CanDrop /\ pc[r] = "ret" /\ held[r] /\ held' = [held EXCEPT ![r] = FALSE]
  /\ UNCHANGED <<pc, outst, fut, val, conn, lost, c2s, s2c, hnd, cur, bqueue, bhist, dlv, wrong, must, bef, alive>>

\* ---- connecting and closing
Connect(c) ==
  /\ conn[c] = "no" /\ alive /\ conn' = [conn EXCEPT ![c] = "backlog"]
  /\ UNCHANGED <<pc, outst, held, fut, val, lost, c2s, s2c, hnd, cur, bqueue, bhist, dlv, wrong, must, bef, alive>>
\* a completed round trip, from the history of the futures
Confirm(c) ==
  /\ conn[c] = "accepted" /\ must[c] = 0 /\ \E r \in Requests : C(r) = c /\ fut[r] = "value"
  /\ must' = [must EXCEPT ![c] = Len(bhist) + 1]
  /\ UNCHANGED <<pc, outst, held, fut, val, conn, lost, c2s, s2c, hnd, cur, bqueue, bhist, dlv, wrong, bef, alive>>
Close(c) ==
  /\ CanClose /\ Usable(c) /\ \A r \in Requests : C(r) = c => pc[r] \in {"no", "ret"}
  /\ conn' = [conn EXCEPT ![c] = "closed"]
  /\ s2c' = [s2c EXCEPT ![c] = <<>>]
  /\ UNCHANGED <<pc, outst, held, fut, val, lost, c2s, hnd, cur, bqueue, bhist, dlv, wrong, must, bef, alive>>

\* ---- worker of the server
Accept(c) ==
  /\ alive /\ cur = Idle /\ conn[c] = "backlog" /\ conn' = [conn EXCEPT ![c] = "accepted"]
  /\ UNCHANGED <<pc, outst, held, fut, val, lost, c2s, s2c, hnd, cur, bqueue, bhist, dlv, wrong, must, bef, alive>>
Receive(c) ==
  /\ alive /\ cur = Idle /\ conn[c] \in {"accepted", "closed"}
  /\ c2s[c] # <<>> /\ c2s' = [c2s EXCEPT ![c] = Tail(@)]
  /\ LET r == Head(c2s[c]) IN
     IF Plan[r].ep \in Served
     THEN /\ hnd' = [hnd EXCEPT ![r] = "handled"] /\ cur' = [op |-> "handle", r |-> r]
     ELSE UNCHANGED <<hnd, cur>>
  /\ UNCHANGED <<pc, outst, held, fut, val, conn, lost, s2c, bqueue, bhist, dlv, wrong, must, bef, alive>>
Finish ==
  /\ alive /\ cur.op = "handle"
  /\ LET r == cur.r IN
     IF Plan[r].ep \in Answering
     THEN hnd' = [hnd EXCEPT ![r] = "replied"] /\ cur' = [op |-> "send", r |-> r]
     ELSE hnd' = [hnd EXCEPT ![r] = "mute"] /\ cur' = Idle
  /\ UNCHANGED <<pc, outst, held, fut, val, conn, lost, c2s, s2c, bqueue, bhist, dlv, wrong, must, bef, alive>>
SendReply ==
  /\ alive /\ cur.op = "send" /\ cur' = Idle
  /\ s2c' = IF conn[C(cur.r)] = "accepted" THEN [s2c EXCEPT ![C(cur.r)] = Append(@, [id |-> cur.r, ep |-> Plan[cur.r].ep, d |-> cur.r])] ELSE s2c
  /\ UNCHANGED <<pc, outst, held, fut, val, conn, lost, c2s, hnd, bqueue, bhist, dlv, wrong, must, bef, alive>>
Issue ==
  /\ alive /\ Len(bhist) < MaxB
  /\ bhist' = Append(bhist, Len(bhist) + 1) /\ bqueue' = Append(bqueue, Len(bhist) + 1)
  /\ UNCHANGED <<pc, outst, held, fut, val, conn, lost, c2s, s2c, hnd, cur, dlv, wrong, must, bef, alive>>
PopB ==
  /\ alive /\ cur = Idle /\ bqueue # <<>>
  /\ LET i == IF Fifo THEN 1 ELSE Len(bqueue) IN
     /\ cur' = [op |-> "bcast", b |-> bqueue[i], to |-> {c \in Clients : conn[c] = "accepted"}]
     /\ bqueue' = [j \in 1..(Len(bqueue) - 1) |-> IF j < i THEN bqueue[j] ELSE bqueue[j + 1]]
  /\ UNCHANGED <<pc, outst, held, fut, val, conn, lost, c2s, s2c, hnd, bhist, dlv, wrong, must, bef, alive>>
SendB ==
  /\ alive /\ cur.op = "bcast"
  /\ IF cur.to = {} THEN cur' = Idle /\ s2c' = s2c
     ELSE LET c == CHOOSE x \in cur.to : TRUE IN
          /\ cur' = [cur EXCEPT !.to = @ \ {c}]
          /\ s2c' = IF conn[c] = "accepted" THEN [s2c EXCEPT ![c] = Append(@, [id |-> 0, ep |-> "b", d |-> cur.b])] ELSE s2c
  /\ UNCHANGED <<pc, outst, held, fut, val, conn, lost, c2s, hnd, bqueue, bhist, dlv, wrong, must, bef, alive>>
Kill ==
  /\ CanKill /\ alive /\ alive' = FALSE /\ cur' = Idle
  /\ UNCHANGED <<pc, outst, held, fut, val, conn, lost, c2s, s2c, hnd, bqueue, bhist, dlv, wrong, must, bef>>

\* ---- worker of a client
Match(c, m) == IF KeyById THEN {r \in outst[c] : r = m.id}
               ELSE {r \in outst[c] : Plan[r].ep = m.ep /\ \A q \in outst[c] : Plan[q].ep = m.ep => q >= r}
ClientRecv(c) ==
  /\ Usable(c) /\ ~lost[c] /\ s2c[c] # <<>> /\ s2c' = [s2c EXCEPT ![c] = Tail(@)]
  /\ LET m == Head(s2c[c])
         hit == Match(c, m)
     IN IF hit # {}
        THEN LET r == CHOOSE x \in hit : TRUE IN
             /\ outst' = [outst EXCEPT ![c] = @ \ {r}]
             /\ fut' = IF held[r] THEN [fut EXCEPT ![r] = "value"] ELSE fut
             /\ val' = IF held[r] THEN [val EXCEPT ![r] = m.d] ELSE val
             /\ UNCHANGED <<dlv, wrong>>
        ELSE /\ IF m.id = 0 THEN dlv' = [dlv EXCEPT ![c] = Append(@, m.d)] /\ wrong' = wrong
                ELSE dlv' = dlv /\ wrong' = [wrong EXCEPT ![c] = @ \/ ~OnlyIdZero]
             /\ UNCHANGED <<outst, fut, val>>
  /\ UNCHANGED <<pc, held, conn, lost, c2s, hnd, cur, bqueue, bhist, must, bef, alive>>
Lose(c) ==
  /\ Usable(c) /\ ~alive /\ ~lost[c] /\ s2c[c] = <<>>
  /\ lost' = [lost EXCEPT ![c] = TRUE]
  /\ IF FailOnLoss THEN /\ fut' = [r \in Requests |-> IF r \in outst[c] THEN "error" ELSE fut[r]]
                        /\ outst' = [outst EXCEPT ![c] = {}]
     ELSE UNCHANGED <<fut, outst>>
  /\ UNCHANGED <<pc, held, val, conn, c2s, s2c, hnd, cur, bqueue, bhist, dlv, wrong, must, bef, alive>>
Clean(c) ==
  /\ Usable(c) /\ ~lost[c] /\ \E r \in outst[c] : ~held[r]
  /\ outst' = [outst EXCEPT ![c] = {r \in @ : held[r]}]
  /\ UNCHANGED <<pc, held, fut, val, conn, lost, c2s, s2c, hnd, cur, bqueue, bhist, dlv, wrong, must, bef, alive>>

System == \/ \E r \in Requests : Send(r) \/ Return(r)
          \/ \E c \in Clients : Accept(c) \/ Receive(c) \/ ClientRecv(c) \/ Lose(c) \/ Clean(c)
          \/ Finish \/ SendReply \/ PopB \/ SendB
Env == \/ \E r \in Requests : Begin(r) \/ Drop(r)
       \/ \E c \in Clients : Connect(c) \/ Confirm(c) \/ Close(c)
       \/ Issue \/ Kill
Next == System \/ Env
Fair == /\ \A r \in Requests : WF_ivars(Send(r)) /\ WF_ivars(Return(r))
        /\ \A c \in Clients : WF_ivars(Accept(c)) /\ SF_ivars(Receive(c)) /\ WF_ivars(ClientRecv(c)) /\ WF_ivars(Lose(c)) /\ WF_ivars(Clean(c))
        /\ WF_ivars(Finish) /\ WF_ivars(SendReply) /\ SF_ivars(PopB) /\ WF_ivars(SendB)
Spec == Init /\ [][Next]_ivars
FairSpec == Spec /\ Fair

----------------------------------------------------------------------------
\* Refinement of Rpc.
Begun == {r \in Requests : pc[r] # "no"}
AbsPh(r) == IF hnd[r] = "no" THEN "sent" ELSE hnd[r]
AbsFut(r) == IF ~held[r] THEN "dropped"
             ELSE CASE fut[r] = "none" -> "held" [] fut[r] = "value" -> "ready" [] fut[r] = "error" -> "failed"
AbsReq == [r \in Begun |-> [c |-> C(r), ep |-> Plan[r].ep, d |-> r, ph |-> AbsPh(r),
                            resp |-> IF hnd[r] = "replied" THEN r ELSE "-", fut |-> AbsFut(r), ret |-> pc[r] = "ret",
                            bef |-> bef[r], k |-> 0, late |-> FALSE]]
AbsCl == [c \in {x \in Clients : conn[x] # "no"} |->
            [st |-> IF conn[c] = "closed" THEN "closed" ELSE "open", eps |-> {"b"}, must |-> must[c],
             pos |-> IF dlv[c] = <<>> THEN 0 ELSE dlv[c][Len(dlv[c])], noticed |-> lost[c]]]
AbsSrv == IF alive THEN "up" ELSE "dead"
AbsBq == [i \in DOMAIN bhist |-> [ep |-> "b", d |-> i]]
R == INSTANCE Rpc WITH req <- AbsReq, cl <- AbsCl, srv <- AbsSrv, bq <- AbsBq
\* what the futures hold is what the handlers produced for them
RightValue == \A r \in Requests : fut[r] = "value" => val[r] = r /\ hnd[r] = "replied"
NothingWrong == \A c \in Clients : ~wrong[c]
\* abandoned requests and lost connections change several records of Rpc at once
FailAll == /\ ~alive
           /\ \A r \in DOMAIN AbsReq : AbsReq'[r] # AbsReq[r] =>
                 AbsReq[r].fut = "held" /\ AbsReq'[r] = [AbsReq[r] EXCEPT !.fut = "failed"]
RNext ==
  \/ \E c \in Clients : \/ R!Connect(c, {"b"}) \/ (c \in DOMAIN AbsCl /\ (R!Confirm(c) \/ R!Notice(c)))
                        \/ (c \in DOMAIN AbsCl /\ AbsCl[c].st = "open" /\ AbsCl' = [AbsCl EXCEPT ![c].st = "closed"] /\ UNCHANGED <<AbsReq, AbsSrv, AbsBq>>)
                        \/ (c \in DOMAIN AbsCl /\ \E i \in DOMAIN bhist : R!Deliver(c, i))
  \/ \E r \in Requests : \/ R!Issue(r, C(r), Plan[r].ep, r) \/ R!Return(r) \/ R!Drop(r)
                         \/ (r \in Begun /\ R!CanHandle(r, Plan[r].ep, r, Served) /\ R!Handle(r, 0))
                         \/ (r \in Begun /\ (R!Reply(r, r) \/ R!Mute(r) \/ R!Ready(r, r) \/ R!Fail(r)))
  \/ R!Broadcast("b", Len(bhist) + 1)
  \/ AbsSrv' = "dead" /\ UNCHANGED <<AbsReq, AbsCl, AbsBq>>
  \/ FailAll
Refines == [][RNext]_<<AbsReq, AbsCl, alive, bhist>>
----------------------------------------------------------------------------
\* Nothing left to do: then everything that had to happen happened.
Quiet == ~ENABLED System
QuietOK ==
  Quiet =>
    /\ \A r \in Requests : pc[r] = "ret" /\ conn[C(r)] = "accepted" /\ alive =>
         /\ Plan[r].ep \in Served => hnd[r] \in {"replied", "mute"}
         /\ Plan[r].ep \in Answering /\ held[r] => fut[r] = "value"
         /\ (r \in outst[C(r)]) = (held[r] /\ fut[r] = "none")
    /\ \A c \in Clients : conn[c] = "accepted" /\ alive /\ must[c] # 0 =>
         \A i \in must[c]..Len(bhist) : \E j \in DOMAIN dlv[c] : dlv[c][j] = i
    /\ ~alive => \A r \in Requests : pc[r] = "ret" /\ held[r] /\ Usable(C(r)) => fut[r] # "none" /\ lost[C(r)]
OnceInOrder == \A c \in Clients : \A i, j \in DOMAIN dlv[c] : i < j => dlv[c][i] < dlv[c][j]
\* Liveness: no request waits forever for an answer that was or will be produced, nor for a dead server.
Resolved == \A r \in Requests :
  (pc[r] = "ret" /\ held[r] /\ fut[r] = "none" /\ (Plan[r].ep \in Answering \/ ~alive))
     ~> (fut[r] # "none" \/ ~held[r] \/ conn[C(r)] = "closed")
=============================================================================
