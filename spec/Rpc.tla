-------------------------------- MODULE Rpc --------------------------------
(***************************************************************************)
(* What users of a transport rely on: requests, responses, dropped         *)
(* requests, broadcasts and the loss of the server, at the level of the    *)
(* calls on Transport and Endpoint. Nothing in here knows about sockets,   *)
(* worker threads or request ids; UnixTransport.tla is shown to refine     *)
(* this, and RpcTrace.tla validates executions of the real code against    *)
(* the same actions.                                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES
  req,   \* function: request -> record, see Issue
  cl,    \* function: client -> record, see Connect
  srv,   \* "up", "going" (is being stopped or killed), "dead"
  bq     \* all broadcasts issued so far, in order: [ep, d]

vars == <<req, cl, srv, bq>>

NoReply == "-"

Init == req = <<>> /\ cl = <<>> /\ srv = "up" /\ bq = <<>>

Reqs == DOMAIN req
OfClient(c) == {r \in Reqs : req[r].c = c}

----------------------------------------------------------------------------
\* Clients come and go.
Connect(c, eps) ==
  /\ c \notin DOMAIN cl
  /\ cl' = cl @@ (c :> [st |-> "open", eps |-> eps, must |-> 0, pos |-> 0, noticed |-> FALSE])
  /\ UNCHANGED <<req, srv, bq>>

\* The first round trip completed: from here on the server knows this client, so broadcasts issued now must reach it.
Confirm(c) ==
  /\ cl[c].st = "open"
  /\ cl' = [cl EXCEPT ![c].must = IF @ = 0 THEN Len(bq) + 1 ELSE @]
  /\ UNCHANGED <<req, srv, bq>>

BeginClose(c) == cl[c].st = "open" /\ cl' = [cl EXCEPT ![c].st = "closing"] /\ UNCHANGED <<req, srv, bq>>
EndClose(c) == cl[c].st = "closing" /\ cl' = [cl EXCEPT ![c].st = "closed"] /\ UNCHANGED <<req, srv, bq>>

----------------------------------------------------------------------------
\* Requests. bef: the requests whose call had returned when this one was made; they have to be handled first.
Issue(r, c, ep, d) ==
  /\ r \notin Reqs /\ c \in DOMAIN cl /\ cl[c].st # "closed"
  /\ req' = req @@ (r :> [c |-> c, ep |-> ep, d |-> d, ph |-> "sent", resp |-> NoReply, fut |-> "held", ret |-> FALSE,
                          bef |-> {q \in OfClient(c) : req[q].ret}, k |-> 0,
                          late |-> srv = "dead" /\ cl[c].noticed])
  /\ UNCHANGED <<cl, srv, bq>>

Return(r) == r \in Reqs /\ ~req[r].ret /\ req' = [req EXCEPT ![r].ret = TRUE] /\ UNCHANGED <<cl, srv, bq>>

\* The handler of endpoint ep is invoked with data d: this has to be the handling of one particular request.
CanHandle(r, ep, d, seps) ==
  /\ req[r].ph = "sent" /\ req[r].ep = ep /\ req[r].d = d
  /\ \A q \in req[r].bef : req[q].ph # "sent" \/ req[q].ep \notin seps
  /\ ~req[r].late
Handle(r, k) ==
  /\ srv # "dead"
  /\ req' = [req EXCEPT ![r].ph = "handled", ![r].k = k]
  /\ UNCHANGED <<cl, srv, bq>>

Reply(r, rd) ==
  /\ req[r].ph = "handled" /\ srv # "dead"
  /\ req' = [req EXCEPT ![r].ph = "replied", ![r].resp = rd]
  /\ UNCHANGED <<cl, srv, bq>>
Mute(r) ==
  /\ req[r].ph = "handled" /\ srv # "dead"
  /\ req' = [req EXCEPT ![r].ph = "mute"]
  /\ UNCHANGED <<cl, srv, bq>>

\* The future gets the response that the handler produced for this very request.
Ready(r, rd) ==
  /\ r \in Reqs /\ req[r].fut = "held" /\ req[r].ph = "replied" /\ req[r].resp = rd
  /\ req' = [req EXCEPT ![r].fut = "ready"]
  /\ UNCHANGED <<cl, srv, bq>>

\* Only the loss of the server fails a request.
Fail(r) ==
  /\ r \in Reqs /\ req[r].fut = "held" /\ srv # "up"
  /\ req' = [req EXCEPT ![r].fut = "failed"]
  /\ UNCHANGED <<cl, srv, bq>>

Drop(r) == r \in Reqs /\ req' = [req EXCEPT ![r].fut = "dropped"] /\ UNCHANGED <<cl, srv, bq>>

\* The number of outstanding requests, when nothing is in flight any more, ...
Outstanding(c) == {r \in OfClient(c) : req[r].fut = "held" /\ req[r].ph \in {"sent", "handled", "mute"}}
\* ... and what it is at least and at most at any time.
AtLeast(c) == {r \in Outstanding(c) : req[r].ret}
AtMost(c) == {r \in OfClient(c) : req[r].fut # "ready" /\ req[r].fut # "failed"}

----------------------------------------------------------------------------
\* Broadcasts.
Broadcast(ep, d) == bq' = Append(bq, [ep |-> ep, d |-> d]) /\ UNCHANGED <<req, cl, srv>>

\* Broadcast i was surely meant for client c.
Obliged(c, i) == bq[i].ep \in cl[c].eps /\ cl[c].must # 0 /\ i >= cl[c].must
CanDeliver(c, i) ==
  /\ cl[c].st # "closed"
  /\ i > cl[c].pos /\ bq[i].ep \in cl[c].eps
  /\ \A j \in (cl[c].pos + 1)..(i - 1) : ~Obliged(c, j)
Deliver(c, i) ==
  /\ CanDeliver(c, i)
  /\ cl' = [cl EXCEPT ![c].pos = i]
  /\ UNCHANGED <<req, srv, bq>>

----------------------------------------------------------------------------
\* The server goes away.
Going == srv' = (IF srv = "up" THEN "going" ELSE srv) /\ UNCHANGED <<req, cl, bq>>
Dead == srv = "going" /\ srv' = "dead" /\ UNCHANGED <<req, cl, bq>>
Notice(c) == srv # "up" /\ cl' = [cl EXCEPT ![c].noticed = TRUE] /\ UNCHANGED <<req, srv, bq>>

----------------------------------------------------------------------------
\* What must be the case once everything that had to happen happened.
Live(c) == cl[c].st = "open" /\ srv = "up"
RpcDone(seps) ==
  \A r \in Reqs : Live(req[r].c) =>
    /\ req[r].ep \in seps => req[r].ph \in {"replied", "mute"}
    /\ req[r].ep \notin seps => req[r].ph = "sent"
    /\ req[r].ph = "replied" => req[r].fut # "held"
BcastDone ==
  \A c \in DOMAIN cl : Live(c) => \A i \in (cl[c].pos + 1)..Len(bq) : ~Obliged(c, i)
LossDone ==
  srv = "dead" => \A r \in Reqs : cl[req[r].c].st = "open" => req[r].fut # "held" /\ cl[req[r].c].noticed

\* Safety of the states, for model checking.
TypeOK ==
  /\ srv \in {"up", "going", "dead"}
  /\ \A r \in Reqs : /\ req[r].ph \in {"sent", "handled", "replied", "mute"}
                     /\ req[r].fut \in {"held", "ready", "failed", "dropped"}
NoInvention == \A r \in Reqs : req[r].fut = "ready" => req[r].ph = "replied"
\* Handlers see the requests of one client in the order they were made.
InOrder(seps) == \A r, q \in Reqs : q \in req[r].bef /\ req[r].ph # "sent" => req[q].ph # "sent" \/ req[q].ep \notin seps
=============================================================================
