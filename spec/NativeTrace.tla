---------------------------- MODULE NativeTrace ----------------------------
(* What was broadcast against what threads recorded. Events of a thread are numbered; f is the number of the first one. *)
EXTENDS TraceBase
VARIABLES cap, bs, last, cnt, lt    \* of each thread: room, its bursts, number of the last event that was sent, how many were sent, time of the last
tvars == <<tr, l, cap, bs, last, cnt, lt>>
TInit == TraceStart /\ cap = <<>> /\ bs = <<>> /\ last = <<>> /\ cnt = <<>> /\ lt = <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
EStart == /\ Is("Start") /\ cap' = Put(cap, Ev.t, Ev.cap) /\ bs' = Put(bs, Ev.t, <<>>) /\ last' = Put(last, Ev.t, 0)
          /\ cnt' = Put(cnt, Ev.t, 0) /\ lt' = Put(lt, Ev.t, 0)
ERecB == /\ Is("RecB") /\ bs' = [bs EXCEPT ![Ev.t] = Append(@, [f |-> Ev.f, n |-> Ev.n, k |-> Ev.k, v |-> Ev.v, id |-> Ev.id, b |-> Ev.at, e |-> -1, sent |-> cnt[Ev.t]])]
         /\ UNCHANGED <<cap, last, cnt, lt>>
ERecE == /\ Is("RecE") /\ bs' = [bs EXCEPT ![Ev.t][Len(bs[Ev.t])].e = Ev.at] /\ UNCHANGED <<cap, last, cnt, lt>>
\* events g..h were dropped: there was no room, at most, when they were recorded (what had been sent by then had left the buffer)
Dropped(t, g, h, c) == g <= h => \A k \in 1..Len(bs[t]) : LET B == bs[t][k] IN B.f <= h /\ g < B.f + B.n => c - B.sent >= cap[t]
RECURSIVE Sent(_, _)
Sent(s, rs) == IF rs = <<>> \/ ~s.ok THEN s ELSE
  LET r == Head(rs) IN
  IF r.t \notin DOMAIN cap THEN [s EXCEPT !.ok = FALSE] ELSE
  LET good == /\ r.f > s.last[r.t] /\ Dropped(r.t, s.last[r.t] + 1, r.f - 1, s.cnt[r.t]) /\ r.mono = 1 /\ r.lo >= s.lt[r.t] /\ r.lo <= r.hi
              /\ \E k \in 1..Len(bs[r.t]) : LET B == bs[r.t][k] IN
                   /\ B.f <= r.f /\ r.f + r.n <= B.f + B.n /\ B.k = r.k /\ B.v = r.v /\ B.id = r.id
                   /\ B.b <= r.lo /\ (B.e # -1 => r.hi <= B.e)
  IN Sent([ok |-> good, last |-> [s.last EXCEPT ![r.t] = r.f + r.n - 1], cnt |-> [s.cnt EXCEPT ![r.t] = @ + r.n], lt |-> [s.lt EXCEPT ![r.t] = r.hi]], Tail(rs))
EBc == /\ Is("Bc") /\ Ev.ok /\ Ev.pid
       /\ \E s \in {Sent([ok |-> TRUE, last |-> last, cnt |-> cnt, lt |-> lt], Ev.runs)} :
            s.ok /\ last' = s.last /\ cnt' = s.cnt /\ lt' = s.lt
       /\ UNCHANGED <<cap, bs>>
\* all that was recorded has arrived, save what was dropped
ESettled == /\ Is("Settled") /\ \A t \in DOMAIN cap : bs[t] # <<>> => LET B == bs[t][Len(bs[t])] IN last[t] = B.f + B.n - 1 \/ Dropped(t, last[t] + 1, B.f + B.n - 1, cnt[t])
            /\ UNCHANGED <<cap, bs, last, cnt, lt>>
EDone == Is("Done") /\ UNCHANGED <<cap, bs, last, cnt, lt>>
TNext == EStart \/ ERecB \/ ERecE \/ EBc \/ ESettled \/ EDone
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
